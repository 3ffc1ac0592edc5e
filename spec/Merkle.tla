------------------------------- MODULE Merkle -------------------------------
(***************************************************************************)
(* The rewards tree (merklelizer.go).  vals: index -> [wa, acc, ...] with  *)
(* wa in lower case.  First the leaf of the pool's fee address, then one   *)
(* leaf per distinct withdrawal address, in ascending order.  The contract *)
(* keeps one figure of what was claimed per address, so every leaf of an   *)
(* address holds all that belongs to it: what its validators can claim,    *)
(* and the pool's fees if it is the fee address (whose leaf then appears   *)
(* twice).                                                                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, Num, Hash

RECURSIVE ClaimOf(_, _)
ClaimOf(S, vals) == IF S = {} THEN Zero
                    ELSE LET i == CHOOSE i \in S : TRUE IN Add(vals[i].acc, ClaimOf(S \ {i}, vals))
Claimable(vals, a) == ClaimOf({i \in DOMAIN vals : vals[i].wa = a}, vals)

Addresses(vals) == {vals[i].wa : i \in DOMAIN vals}

RECURSIVE Ascending(_)
Ascending(S) == IF S = {} THEN <<>>
                ELSE LET m == CHOOSE m \in S : \A x \in S \ {m} : AddrLt(m, x)
                     IN <<m>> \o Ascending(S \ {m})

Belongs(vals, feeAddr, fees, a) == Add(Claimable(vals, a), IF a = feeAddr THEN fees ELSE Zero)

Leaves(vals, feeAddr, fees) ==
  LET order == <<feeAddr>> \o Ascending(Addresses(vals))
  IN [k \in DOMAIN order |-> [a |-> order[k], amt |-> Belongs(vals, feeAddr, fees, order[k])]]

HashOf(leaf) == LeafHash(leaf.a, leaf.amt)

(* One level up; the last node of an odd level is paired with itself.      *)
Up(hs) == [k \in 1..((Len(hs) + 1) \div 2) |->
             PairHash(hs[2 * k - 1], IF 2 * k <= Len(hs) THEN hs[2 * k] ELSE hs[2 * k - 1])]
RECURSIVE RootOf(_)
RootOf(hs) == IF Len(hs) = 1 THEN hs[1] ELSE RootOf(Up(hs))

HasTree(leaves) == Len(leaves) >= 2
TreeRoot(leaves) == RootOf([k \in DOMAIN leaves |-> HashOf(leaves[k])])

(* What the contract computes from a claim and its proof.                  *)
RECURSIVE Fold(_, _)
Fold(h, proof) == IF proof = <<>> THEN h ELSE Fold(PairHash(h, Head(proof)), Tail(proof))
Verifies(leaf, proof, root) == Fold(HashOf(leaf), proof) = root

(* The proof of the k-th node of a level.                                  *)
RECURSIVE ProofOf(_, _)
ProofOf(hs, k) ==
  IF Len(hs) = 1 THEN <<>>
  ELSE LET sib == IF k % 2 = 0 THEN k - 1 ELSE IF k + 1 <= Len(hs) THEN k + 1 ELSE k
       IN <<hs[sib]>> \o ProofOf(Up(hs), (k + 1) \div 2)
=============================================================================
