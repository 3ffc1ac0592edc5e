------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* What an oracle follows: the chain its clients are on, the pool contract *)
(* there and where its life began (GetConfigFromContract).                 *)
(*                                                                         *)
(* i: the chain ids of both clients, the time of genesis and of the        *)
(* deployment block, its number and the number in the beacon block of its  *)
(* slot, its transactions [to, fee, bad] (fee = -1: not an initialization; *)
(* bad: one that cannot be read), the values of the contract, the options. *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

Networks == [c \in {"1", "5", "17000", "560048"} |->
               CASE c = "1" -> "mainnet" [] c = "5" -> "goerli" [] c = "17000" -> "holesky" [] OTHER -> "hoodi"]
DefaultFee == [mainnet |-> 700, hoodi |-> 1000]
SecondsPerSlot == 12

Slot(i) == (i.time - i.genesis) \div SecondsPerSlot
(* The initialization of the pool: a call of it, or data of a creation.    *)
Initializes(t) == (t.to = "pool" /\ (t.fee >= 0 \/ t.bad)) \/ (t.to = "new" /\ t.fee >= 0)
FirstInit(i) == {k \in DOMAIN i.txs : Initializes(i.txs[k]) /\ \A j \in 1..(k-1) : ~Initializes(i.txs[j])}
ReadFee(i) == IF FirstInit(i) = {} THEN -1
              ELSE LET t == i.txs[CHOOSE k \in FirstInit(i) : TRUE] IN IF t.bad THEN -1 ELSE t.fee
Fee(i) == IF ReadFee(i) >= 0 THEN ReadFee(i) ELSE DefaultFee[Networks[i.cons]]

Refused(i) ==
  \/ i.cons # i.exec                        \* clients of different chains
  \/ i.cons \notin DOMAIN Networks          \* a chain without forks and fees known
  \/ i.slotBnum # ToString(i.bnum)          \* the slot computed is not that of the deployment
  \/ ReadFee(i) < 0 /\ Networks[i.cons] \notin DOMAIN DefaultFee

ConfigOf(i) ==
  [net |-> Networks[i.cons], slot |-> Slot(i), block |-> i.bnum, ckpt |-> i.ckpt, fee |-> Fee(i), feeAddr |-> i.feeAddr,
   coll |-> i.coll, pool |-> i.pool, dry |-> i.dry, n |-> i.n, chain |-> i.cons]
=============================================================================
