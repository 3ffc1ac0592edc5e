------------------------------- MODULE PoolMC ------------------------------
(***************************************************************************)
(* Pool.tla, exhaustively, for a small pool: four validators (1 and 2 of   *)
(* withdrawal address A, 3 of B, 4 with bls credentials), every order of   *)
(* every block of the alphabet, Depth blocks deep from several starts.     *)
(*                                                                         *)
(* TLC checks what the properties say about the specification itself, and  *)
(* prints the path to each transition; the `replay` driver walks them with *)
(* the real code and PoolTrace judges what it did.                         *)
(***************************************************************************)
EXTENDS Pool, Json, TLCExt

CONSTANTS Net, Base, Depth, Rich        \* Base: a clean-up slot of the era; Rich: proposal and events in one block

VARIABLES st, path
vars == <<st, path>>

Wa(i)   == IF i \in {1, 2} THEN "a" ELSE IF i = 3 THEN "b" ELSE ""
Cred(i) == IF i = 4 THEN "bls" ELSE IF i = 2 THEN "electra" ELSE "eth1"
Eff(i)  == CASE i = 1 -> "32" [] i = 2 -> "33" [] i = 3 -> "2000" [] i = 4 -> "32"
Bv(i)   == [ok |-> i \in 1..4, id |-> i, idx |-> i, status |-> "active_ongoing", eff |-> Eff(i), cred |-> Cred(i), wa |-> Wa(i), key |-> ToString(i)]

Coll == "10000"
None == [k |-> "other", vi |-> 9]
Lbl == [clean |-> FALSE, prop |-> None, subs |-> <<>>, unsubs |-> <<>>, don |-> <<>>, bans |-> <<>>, unbans |-> <<>>, exit |-> <<>>, cons |-> <<>>, err |-> ""]

Props == <<[k |-> "missed", vi |-> 1], [k |-> "missed", vi |-> 3], [k |-> "vanilla", vi |-> 1], [k |-> "mev", vi |-> 2], [k |-> "mev", vi |-> 3],
           [k |-> "mev", vi |-> 4], [k |-> "wrong", vi |-> 1], [k |-> "wrongmev", vi |-> 3]>>
S(i, c, f) == [id |-> i, coll |-> c, from |-> f]
U(i, f)    == [id |-> i, from |-> f]
Events == <<[Lbl EXCEPT !.subs = <<S(1, "10000", "a")>>], [Lbl EXCEPT !.subs = <<S(1, "9999", "a")>>], [Lbl EXCEPT !.subs = <<S(3, "10007", "b")>>],
            [Lbl EXCEPT !.subs = <<S(3, "10000", "a")>>], [Lbl EXCEPT !.subs = <<S(4, "10000", "a")>>],
            [Lbl EXCEPT !.unsubs = <<U(1, "a")>>], [Lbl EXCEPT !.unsubs = <<U(1, "b")>>], [Lbl EXCEPT !.unsubs = <<U(3, "b")>>],
            [Lbl EXCEPT !.don = <<"7">>], [Lbl EXCEPT !.bans = <<1>>], [Lbl EXCEPT !.bans = <<1, 3>>], [Lbl EXCEPT !.unbans = <<1>>], [Lbl EXCEPT !.unbans = <<3>>],
            [Lbl EXCEPT !.subs = <<S(1, "10000", "a")>>, !.unsubs = <<U(1, "a")>>], [Lbl EXCEPT !.bans = <<3>>, !.unbans = <<3>>],
            [Lbl EXCEPT !.unsubs = <<U(3, "b"), U(1, "a")>>, !.don = <<"50000">>],
            [Lbl EXCEPT !.clean = TRUE], [Lbl EXCEPT !.clean = TRUE, !.exit = <<1>>], [Lbl EXCEPT !.clean = TRUE, !.exit = <<1, 3>>],
            [Lbl EXCEPT !.clean = TRUE, !.exit = <<1>>, !.cons = <<[s |-> 1, t |-> 3]>>],
            [Lbl EXCEPT !.clean = TRUE, !.exit = <<1, 3>>, !.cons = <<[s |-> 1, t |-> 3], [s |-> 3, t |-> 2]>>],
            [Lbl EXCEPT !.clean = TRUE, !.exit = <<3>>, !.cons = <<[s |-> 3, t |-> 4]>>],
            [Lbl EXCEPT !.clean = TRUE, !.exit = <<1>>, !.err = "cons"], [Lbl EXCEPT !.clean = TRUE, !.exit = <<3>>, !.err = "val"]>>
Alone == [k \in DOMAIN Props |-> [Lbl EXCEPT !.prop = Props[k]]]
Made  == SelectSeq(Props, LAMBDA p : p.k # "missed")      \* a slot without block has no events
Both  == [n \in 1..(Len(Made) * Len(Events)) |->
            [Events[((n - 1) % Len(Events)) + 1] EXCEPT !.prop = Made[((n - 1) \div Len(Events)) + 1]]]
Alphabet == Alone \o Events \o (IF Rich THEN Both ELSE <<>>)

(* The block a label stands for (harness/cmd/vh/replay.go builds the same). *)
User == "u"
ThePool == "pool"
Tx(from, to, val) == [from |-> from, to |-> to, val |-> val, ty |-> 2, price |-> "0", tip |-> "47", cap |-> "1000", gas |-> "21000", hok |-> TRUE]
BlockOf(x) ==
  LET p == x.prop
      mev == CASE p.k = "mev" -> <<Tx(User, ThePool, "1000003")>>
               [] p.k = "wrongmev" -> <<Tx(User, "w", "1000003")>>
               [] OTHER -> <<Tx("w", "w", "5")>>
      ev(v) == [from |-> "w", val |-> v, addr |-> ThePool]
  IN [slot |-> IF x.clean THEN Base ELSE Base + 1, vi |-> p.vi, key |-> ToString(p.vi), cred |-> Cred(p.vi), wa |-> IF p.vi = 9 THEN "w" ELSE Wa(p.vi),
      missed |-> p.k = "missed", bnum |-> 1000, feeRec |-> IF p.k = "vanilla" THEN ThePool ELSE User,
      pbase |-> "10", pgas |-> "21000", hbase |-> "10", hdr |-> TRUE, nrec |-> 1, txs |-> mev,
      ers |-> [k \in DOMAIN x.don |-> ev(x.don[k])] \o (IF p.k = "mev" THEN <<ev("1000003")>> ELSE <<>>),
      subs |-> [k \in DOMAIN x.subs |-> [id |-> x.subs[k].id, coll |-> x.subs[k].coll, from |-> x.subs[k].from, v |-> Bv(x.subs[k].id)]],
      unsubs |-> [k \in DOMAIN x.unsubs |-> [id |-> x.unsubs[k].id, from |-> x.unsubs[k].from, v |-> Bv(x.unsubs[k].id)]],
      bans |-> x.bans, unbans |-> x.unbans, fees |-> <<>>, recips |-> <<>>, csizes |-> <<>>, colls |-> <<>>]
EnvFor(x) == [v |-> [i \in 1..4 |-> [status |-> IF \E k \in DOMAIN x.exit : x.exit[k] = i THEN "withdrawal_done" ELSE "active_ongoing",
                                     eff |-> Eff(i), cred |-> Cred(i), wa |-> Wa(i), key |-> ToString(i)]],
              cons |-> x.cons, consErr |-> x.err = "cons", valErr |-> x.err = "val"]
Cx(x) == [net |-> Net, chain |-> IF Net = "mainnet" THEN 1 ELSE 560048, pool |-> ThePool, feeAddr |-> "fee", ckpt |-> 4, coll |-> Coll, builders |-> {}, env |-> EnvFor(x)]

At(s, slot) == [s EXCEPT !.slot = slot - 1, !.next = slot, !.block = 999]
Apply(s, x) == LET b == BlockOf(x) IN ApplyBlock(Cx(x), At(s, b.slot), b)
Norm(s) == At(s, Base)

Fresh == [slot |-> Base - 1, next |-> Base, block |-> 999, pool |-> Zero, fee |-> 700, vals |-> [i \in {} |-> 0]]

\* where to start: an empty pool, three active, one each of yellow and red, two not subscribed, one banned
RECURSIVE Run(_, _)
Run(s, ks) == IF ks = <<>> THEN s ELSE Run(Norm(Apply(s, Alphabet[Head(ks)]).st), Tail(ks))
Starts == {<<>>, <<3, 4, 5>>, <<3, 5, 1, 2, 2>>, <<4, 3, 5, 14, 16>>, <<3, 4, 5, 18>>}

Init == \E ks \in Starts : path = ks /\ st = Run(Fresh, ks)

(* The properties, on the specification itself.                            *)
Causes(pre, x, i) ==
  {e \in {"ok", "autosub"} : x.prop.vi = i /\ x.prop.k \in {"vanilla", "mev"}} \cup {e \in {"missed"} : x.prop.vi = i /\ x.prop.k = "missed"}
  \cup {e \in {"wrongfee"} : x.prop.vi = i /\ x.prop.k \in {"wrong", "wrongmev"}} \cup {e \in {"sub"} : \E k \in DOMAIN x.subs : x.subs[k].id = i}
  \cup {e \in {"unsub"} : \/ \E k \in DOMAIN x.unsubs : x.unsubs[k].id = i
                          \/ x.clean /\ \E k \in DOMAIN x.exit : x.exit[k] = i}
  \cup {e \in {"ban"} : \E k \in DOMAIN x.bans : x.bans[k] = i} \cup {e \in {"unban"} : \E k \in DOMAIN x.unbans : x.unbans[k] = i}
RECURSIVE Reach(_, _)
Reach(ss, cs) == LET n == ss \cup {NextStatus(s, c) : s \in ss, c \in cs} IN IF n = ss THEN ss ELSE Reach(n, cs)
Before(pre, i) == IF i \in DOMAIN pre.vals THEN pre.vals[i] ELSE [st |-> "notsubscribed", acc |-> Zero, pend |-> Zero]
Good(pre, x, r) ==
  LET post == r.st
      b    == BlockOf(x)
  IN IF PreFork1Tiny(Net, post) THEN TRUE \* the known finding
     ELSE IF ~r.ok THEN post = pre ELSE                                                                     \* P12: refused as a whole
     /\ Sub(Owed(post), Owed(pre)) = Received(Cx(x), b, r.sum)                                             \* P01
     /\ NonNegative(post)
     /\ \A i \in DOMAIN post.vals : post.vals[i].st \in Reach({Before(pre, i).st}, Causes(pre, x, i))      \* P02
     /\ DOMAIN pre.vals \subseteq DOMAIN post.vals
     /\ \A i \in DOMAIN post.vals :                                                                        \* P04
          Before(pre, i).acc # post.vals[i].acc =>
             /\ Lt(Before(pre, i).acc, post.vals[i].acc)
             /\ (x.prop.vi = i /\ x.prop.k \in {"vanilla", "mev"}) \/ (\E k \in DOMAIN x.subs : x.subs[k].id = i)
     /\ \A i \in DOMAIN post.vals : post.vals[i].st = "banned" => post.vals[i].pend = Zero \/ x.subs # <<>> \/ Before(pre, i).st = "banned"   \* P07
     /\ \A i \in DOMAIN pre.vals : \A c \in {"ban", "wrongfee", "unsub"} :
          Causes(pre, x, i) = {c} /\ ~x.clean /\ pre.vals[i].st \in SubscribedStatus /\ post.vals[i].st \notin SubscribedStatus
             => post.vals[i].pend = Zero                                                                   \* P06 P07
     /\ \A i \in DOMAIN post.vals : (post.vals[i].st = "notsubscribed" /\ x.unsubs = <<>> /\ ~x.clean) => Before(pre, i).st = "notsubscribed"

Next ==
  /\ TLCGet("level") <= Depth
  /\ \E k \in DOMAIN Alphabet :
       LET r == Apply(st, Alphabet[k]) IN
       /\ Assert(Good(st, Alphabet[k], r), <<"the specification breaks a property", st, Alphabet[k], r>>)
       /\ PrintT("T|" \o ToJson(Append(path, k)))
       /\ st' = Norm(r.st)
       /\ path' = Append(path, k)

View == st
Lawful == NonNegative(st)
ASSUME PrintT("A|" \o ToJson(Alphabet))
Spec == Init /\ [][Next]_vars
=============================================================================
