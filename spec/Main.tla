------------------------------- MODULE Main --------------------------------
(***************************************************************************)
(* The program (main.go): what one process may do between its start and    *)
(* its end, seen from outside: the requests it makes and the answers it    *)
(* gets, the report transactions it sends, and the files it leaves.        *)
(*                                                                         *)
(* A life p:                                                               *)
(*   phase  "off" | "start" (configuration, loading) | "loop"              *)
(*   dry    it must not send transactions                                  *)
(*   mem    what it must have loaded; res how loading had to end           *)
(*   at     the slot it processed last, or is processing (fetch)           *)
(*   con, exe, hdr   what the nodes said since the last fetch: how many    *)
(*          slots they are behind (all answers), the last final slot       *)
(*   last, root, voted  what the contract said last, since the last fetch  *)
(*   idle   how often it asked for the contract's slot at `at`, while the  *)
(*          contract neither held nor expected that checkpoint; -1: it did *)
(*   sent   a report for `at` was sent                                     *)
(***************************************************************************)
EXTENDS Node, Integers

None == -1                      \* nothing was read yet
Patience == 10                  \* questions after which it waits for ever
FarBehind == 6                  \* a node that many slots behind is not in sync

NoLife == [phase |-> "off", dry |-> FALSE, bad |-> "", sync |-> "none", res |-> "absent", tainted |-> FALSE,
           mem |-> [slot |-> 0, acc |-> "", com |-> NoSnapshots, fee |-> 0],
           at |-> 0, fetch |-> FALSE, first |-> TRUE, con |-> {}, exe |-> {}, hdr |-> None,
           last |-> None, root |-> "", voted |-> None, idle |-> 0, sent |-> FALSE, txbad |-> FALSE, txdead |-> FALSE, waits |-> FALSE,
           books |-> "none", flt |-> FALSE, iflt |-> FALSE]

(* What a process loads when it starts: the state another oracle offers,   *)
(* or its own file, or nothing.                                            *)
AtStart(w, disk, fresh, sync, sm) ==
  CASE sync \in {"good", "unbalanced"} -> [res |-> "loaded", m |-> sm]
    [] sync = "none" -> Load(w, disk, 0, fresh)
    [] OTHER -> [res |-> "refused", m |-> fresh]

(* A state that is ahead of the contract is given up for an older one.     *)
AfterContract(w, disk, dry, ld, last) ==
  IF ld.res = "refused" \/ dry \/ ~HasLatest(ld.m) THEN ld
  ELSE IF LatestOf(ld.m) <= last THEN ld
  ELSE LET g == LoadGiven(w, disk, last, ld.m) IN IF g.res = "loaded" THEN g ELSE [res |-> "refused", m |-> ld.m]

(* Going on to slot s.                                                     *)
Good(a)        == \E x \in a : x < FarBehind
AllGood(a)     == Good(a) /\ \A x \in a : x < FarBehind
MayFetch(p, s) == Good(p.con) /\ Good(p.exe) /\ p.hdr # None /\ s <= p.hdr
MustFetch(p)   == MayFetch(p, p.at + 1) /\ AllGood(p.con) /\ AllGood(p.exe)

(* The report of slot s with root r may be sent: it is the next one the    *)
(* contract waits for, it is this oracle's own, and not yet reported.      *)
MaySubmit(w, p, s, r) ==
  /\ ~p.dry
  /\ s = p.at /\ Due(w, s)
  /\ p.last # None /\ p.last + w.ckpt = s
  /\ p.voted # None /\ p.voted # s
  /\ ~p.sent

(* Having dealt with checkpoint s of root r it may go on: the contract     *)
(* holds it, or does not wait for it.                                      *)
MayGoOn(w, p, s, r) ==
  p.dry \/ ( /\ p.last # None
             /\ \/ p.last = s /\ p.root = r
                \/ p.last + w.ckpt # s /\ ~p.waits )
=============================================================================
