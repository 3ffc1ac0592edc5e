-------------------------------- MODULE Pool --------------------------------
(***************************************************************************)
(* The accounting of the smoothing pool: what processing one slot does to  *)
(* the state of the oracle (oracle.go: AdvanceStateToNextSlot and all it   *)
(* calls).                                                                 *)
(*                                                                         *)
(* State st:  slot    latest processed slot                                *)
(*            next    next slot to process                                 *)
(*            block   latest processed execution block                     *)
(*            pool    accumulated pool fees                                *)
(*            fee     pool fee in force, over 10000                        *)
(*            vals    validator index -> [st, acc, pend, coll, wa, key, ty]*)
(* Context cx: net, chain, pool (address), feeAddr, ckpt, coll, and env:   *)
(*   what the beacon node knows at the processed slot,                     *)
(*   env.v     index -> [status, eff, cred, wa, key]                       *)
(*   env.cons  sequence of [s, t]   pending consolidations                 *)
(*   env.consErr, env.valErr        the beacon node does not answer        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, FiniteSetsExt, Num, Chain, Block

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

RECURSIVE SumOver(_, _)
SumOver(S, f) == IF S = {} THEN Zero
                 ELSE LET x == CHOOSE x \in S : TRUE IN Add(f[x], SumOver(S \ {x}, f))
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN Zero ELSE Add(Head(s), SumSeq(Tail(s)))

-----------------------------------------------------------------------------
(* Life cycle of a validator.                                              *)
Statuses == {"active", "yellowcard", "redcard", "notsubscribed", "banned"}
SubscribedStatus == {"active", "yellowcard", "redcard"}
EligibleStatus   == {"active", "yellowcard"}

NextStatus(s, ev) ==
  CASE s = "active"     /\ ev = "ok"     -> "active"
    [] s = "yellowcard" /\ ev = "ok"     -> "active"
    [] s = "redcard"    /\ ev = "ok"     -> "yellowcard"
    [] s = "active"     /\ ev = "missed" -> "yellowcard"
    [] s = "yellowcard" /\ ev = "missed" -> "redcard"
    [] s = "redcard"    /\ ev = "missed" -> "redcard"
    [] s \in SubscribedStatus /\ ev \in {"wrongfee", "ban"} -> "banned"
    [] s \in SubscribedStatus /\ ev = "unsub"               -> "notsubscribed"
    [] s = "notsubscribed"    /\ ev \in {"sub", "autosub"}  -> "active"
    [] s = "banned"           /\ ev = "unban"               -> "active"
    [] OTHER -> s

Tracked(vals, i)    == i \in DOMAIN vals
Subscribed(vals, i) == i \in DOMAIN vals /\ vals[i].st \in SubscribedStatus
IsBanned(vals, i)   == i \in DOMAIN vals /\ vals[i].st = "banned"
Eligible(vals)      == {i \in DOMAIN vals : vals[i].st \in EligibleStatus}

(* A ledger L = [vals, pool, dead]: dead # "" when the program must stop.  *)
Event(L, i, ev) == IF i \in DOMAIN L.vals
                   THEN [L EXCEPT !.vals[i].st = NextStatus(@, ev)] ELSE L
ToPool(L, amt)  == [L EXCEPT !.pool = Add(@, amt)]

-----------------------------------------------------------------------------
(* The reward rule.  cx.fee is the fee in force.                           *)
Distribute(cx, L, r) ==
  LET E == Eligible(L.vals) IN
  IF L.dead # "" THEN L
  ELSE IF E = {} THEN ToPool(L, r)
  ELSE
    LET n    == NumOf(Cardinality(E))
        aux  == Mul(r, NumOf(cx.fee))
        cut  == Div(aux, NumOf(10000))
        m    == Method(cx.net, cx.slot)
        give(sh, toPool) ==
          [L EXCEPT !.pool = Add(@, toPool),
                    !.vals = [i \in DOMAIN L.vals |->
                               IF i \in E THEN [L.vals[i] EXCEPT !.pend = Add(@, sh[i])]
                                          ELSE L.vals[i]]]
    IN CASE m = "electra" ->
              LET toD == Sub(r, cut)
                  eff == [i \in E |-> IF i \in DOMAIN cx.env.v THEN NumOf(cx.env.v[i].eff) ELSE Zero]
                  tot == SumOver(E, eff)
              IN IF cx.env.valErr THEN [L EXCEPT !.dead = "validators"]
                 ELSE IF tot = Zero THEN ToPool(L, r)
                 ELSE LET sh == [i \in E |-> Div(Mul(toD, eff[i]), tot)]
                      IN give(sh, Sub(r, SumOver(E, sh)))
         [] m = "fork1" ->
              LET toD == Sub(r, cut)
                  per == Div(toD, n)
              IN give([i \in E |-> per], Sub(r, Mul(per, n)))
         [] m = "prefork1" ->
              LET toD == Sub(Sub(r, cut), Rem(aux, NumOf(10000)))
                  per == Div(toD, n)
              IN give([i \in E |-> per], Sub(r, Mul(per, n)))
         [] OTHER -> [L EXCEPT !.dead = "network"]

(* The pending balance of i is taken away and shared among the others.     *)
(* (i must not be eligible any more.)                                      *)
Forfeit(cx, L, i) ==
  LET D == Distribute(cx, L, L.vals[i].pend)
  IN [D EXCEPT !.vals[i].pend = Zero]

-----------------------------------------------------------------------------
(* Subscriptions: s = [id, coll, from, v], v the beacon record or ok=FALSE *)
CanJoin(status) == status \in {"pending_initialized", "pending_queued", "active_ongoing"}
HasExecCred(v)  == v.cred \in {"eth1", "electra"}

SubscribeOne(cx, L, s) ==
  IF L.dead # "" THEN L
  ELSE IF ~s.v.ok                     THEN ToPool(L, s.coll)
  ELSE IF s.v.idx # s.id              THEN [L EXCEPT !.dead = "subindex"]
  ELSE IF ~CanJoin(s.v.status)        THEN ToPool(L, s.coll)
  ELSE IF ~HasExecCred(s.v)           THEN ToPool(L, s.coll)
  ELSE IF s.from # s.v.wa             THEN ToPool(L, s.coll)
  ELSE IF IsBanned(L.vals, s.id) \/ Subscribed(L.vals, s.id)
                                      THEN [L EXCEPT !.vals[s.id].acc = Add(@, s.coll)]
  ELSE IF Lt(s.coll, cx.coll)         THEN ToPool(L, s.coll)
  ELSE LET fresh == [st |-> "notsubscribed", acc |-> Zero, pend |-> Zero, coll |-> s.coll,
                     wa |-> s.v.wa, key |-> s.v.key, ty |-> "manual"]
           was   == IF Tracked(L.vals, s.id) THEN L.vals[s.id] ELSE fresh
       IN [L EXCEPT !.vals = Put(@, s.id, [was EXCEPT !.ty = "manual",
                                                      !.pend = Add(@, s.coll),
                                                      !.st = NextStatus(@, "sub")])]

RECURSIVE SubscribeAll(_, _, _)
SubscribeAll(cx, L, ss) == IF ss = <<>> THEN L
                           ELSE SubscribeAll(cx, SubscribeOne(cx, L, Head(ss)), Tail(ss))

UnsubscribeOne(cx, L, u) ==
  IF L.dead # "" THEN L
  ELSE IF ~u.v.ok                     THEN L
  ELSE IF u.v.idx # u.id              THEN [L EXCEPT !.dead = "unsubindex"]
  ELSE IF ~HasExecCred(u.v)           THEN L
  ELSE IF u.from # u.v.wa             THEN L
  ELSE IF Subscribed(L.vals, u.id)    THEN Forfeit(cx, Event(L, u.id, "unsub"), u.id)
  ELSE L

RECURSIVE UnsubscribeAll(_, _, _)
UnsubscribeAll(cx, L, us) == IF us = <<>> THEN L
                             ELSE UnsubscribeAll(cx, UnsubscribeOne(cx, L, Head(us)), Tail(us))

-----------------------------------------------------------------------------
(* What the proposal of the slot does; sum is its summary (Block!Summary). *)
Proposal(cx, L, sum) ==
  IF L.dead # "" THEN L
  ELSE CASE sum.kind = "missedproposal" -> Event(L, sum.vi, "missed")
    [] sum.kind = "okpoolproposalblskeys" -> ToPool(L, sum.rew)
    [] sum.kind = "okpoolproposal" ->
         LET fresh == [st |-> "notsubscribed", acc |-> Zero, pend |-> Zero, coll |-> Zero,
                       wa |-> sum.wa, key |-> sum.key, ty |-> "auto"]
             L1 == IF Tracked(L.vals, sum.vi)
                   THEN IF L.vals[sum.vi].st = "notsubscribed"
                        THEN [L EXCEPT !.vals[sum.vi].ty = "auto"] ELSE L
                   ELSE [L EXCEPT !.vals = Put(@, sum.vi, fresh)]
             L2 == Event(L1, sum.vi, "autosub")
             L3 == Event(L2, sum.vi, "ok")
             L4 == Distribute(cx, L3, sum.rew)
         IN [L4 EXCEPT !.vals[sum.vi] = [@ EXCEPT !.acc = Add(@, L4.vals[sum.vi].pend),
                                                  !.pend = Zero]]
    [] sum.kind = "wrongfeerecipient" ->
         IF Subscribed(L.vals, sum.vi)
         THEN Forfeit(cx, Event(L, sum.vi, "wrongfee"), sum.vi)
         ELSE L

RECURSIVE Donate(_, _, _)
Donate(cx, L, ds) == IF ds = <<>> THEN L
                     ELSE Donate(cx, Distribute(cx, L, Head(ds).val), Tail(ds))

(* Bans: everything the banned validators lose is shared once, after all   *)
(* of them are banned.                                                     *)
RECURSIVE BanAll(_, _, _)
BanAll(L, bans, lost) ==
  IF bans = <<>> THEN [L |-> L, lost |-> lost]
  ELSE LET i == Head(bans) IN
       IF Subscribed(L.vals, i)
       THEN BanAll([L EXCEPT !.vals[i] = [@ EXCEPT !.st = NextStatus(@, "ban"), !.pend = Zero]],
                   Tail(bans), Add(lost, L.vals[i].pend))
       ELSE BanAll(L, Tail(bans), lost)
Bans(cx, L, bans) ==
  IF L.dead # "" THEN L
  ELSE LET R == BanAll(L, bans, Zero)
       IN IF Lt(R.lost, Zero) THEN [R.L EXCEPT !.dead = "negative"]  \* see PreFork1Tiny
          ELSE IF Lt(Zero, R.lost) THEN Distribute(cx, R.L, R.lost) ELSE R.L

RECURSIVE Unbans(_, _)
Unbans(L, us) == IF us = <<>> THEN L ELSE Unbans(Event(L, Head(us), "unban"), Tail(us))

-----------------------------------------------------------------------------
(* Clean-up of validators that left the beacon chain.  Simultaneous: what  *)
(* every exited validator had pending when the clean-up starts leaves it.  *)
ActiveOnBeacon(status) == status \in {"active_ongoing", "active_exiting", "active_slashed"}

RECURSIVE Transfer(_, _, _, _)
Transfer(cx, L, srcs, P) ==       \* P[i] = [amt, t] (t = target or -1)
  IF srcs = {} \/ L.dead # "" THEN [L |-> L, rest |-> Zero]
  ELSE LET i == CHOOSE x \in srcs : \A y \in srcs : x <= y
           t == P[i].t
           R == srcs \ {i}
       IN IF t = -1 \/ IsBanned(L.vals, t)
          THEN LET X == Transfer(cx, L, R, P) IN [X EXCEPT !.rest = Add(@, P[i].amt)]
          ELSE IF Tracked(L.vals, t)
          THEN Transfer(cx, [L EXCEPT !.vals[t].pend = Add(@, P[i].amt)], R, P)
          ELSE IF t \notin DOMAIN cx.env.v
          THEN [L |-> [L EXCEPT !.dead = "target"], rest |-> Zero]
          ELSE IF ~HasExecCred(cx.env.v[t])
          THEN [L |-> [L EXCEPT !.dead = "targetbls"], rest |-> Zero]
          ELSE Transfer(cx, [L EXCEPT !.vals = Put(@, t,
                  [st |-> "notsubscribed", acc |-> Zero, pend |-> P[i].amt, coll |-> Zero,
                   wa |-> cx.env.v[t].wa, key |-> cx.env.v[t].key, ty |-> "manual"])], R, P)

ExitedWithPending(cx, L) ==
  {i \in DOMAIN L.vals \cap DOMAIN cx.env.v :
     ~ActiveOnBeacon(cx.env.v[i].status) /\ L.vals[i].pend # Zero}

Cleanup(cx, L) ==
  IF L.dead # "" \/ DOMAIN L.vals = {} THEN L
  ELSE IF (ConsolidationsDue(cx.net, cx.slot) /\ cx.env.consErr) \/ cx.env.valErr
       THEN [L EXCEPT !.dead = "cleanup"]
  ELSE
    LET X    == ExitedWithPending(cx, L)
        cons == IF ConsolidationsDue(cx.net, cx.slot) THEN cx.env.cons ELSE <<>>
        tgt(i) == LET hits == {k \in DOMAIN cons : cons[k].s = i}
                  IN IF hits = {} THEN -1 ELSE cons[CHOOSE k \in hits : \A j \in hits : j <= k].t
        P    == [i \in X |-> [amt |-> L.vals[i].pend, t |-> tgt(i)]]
        L1   == [L EXCEPT !.vals = [i \in DOMAIN L.vals |->
                    IF i \in X THEN [L.vals[i] EXCEPT !.st = NextStatus(@, "unsub"), !.pend = Zero]
                               ELSE L.vals[i]]]
        T    == Transfer(cx, L1, X, P)
    IN IF T.rest = Zero THEN T.L ELSE Distribute(cx, T.L, T.rest)

-----------------------------------------------------------------------------
(* Governance events of the block against the configuration.               *)
GovOk(cx, b) ==
  /\ Len(b.fees) <= 1 /\ Len(b.recips) <= 1 /\ Len(b.csizes) <= 1 /\ Len(b.colls) <= 1
  /\ Len(b.fees) = 1   => /\ b.slot \in DOMAIN ScheduleOf(cx.net)
                          /\ ScheduleOf(cx.net)[b.slot] = b.fees[1]
  /\ Len(b.recips) = 1 => b.recips[1] = cx.feeAddr
  /\ Len(b.csizes) = 1 => b.csizes[1] = cx.ckpt
  /\ Len(b.colls) = 1  => b.colls[1] = cx.coll

(* A refusal: the state stays what it was.                                 *)
Refuse(st, why) == [ok |-> FALSE, why |-> why, st |-> st, sum |-> [kind |-> "none"],
                    don |-> <<>>, ers |-> <<>>, missed |-> FALSE, wrong |-> FALSE, prop |-> FALSE]

ApplyBlock(cx0, st, b) ==
  IF b.slot # st.next \/ st.next # st.slot + 1 THEN Refuse(st, "slot")
  ELSE IF ~GovOk(cx0, b) THEN Refuse(st, "governance")
  ELSE
    LET fee == IF Len(b.fees) = 1 THEN b.fees[1] ELSE st.fee
        cx  == [net |-> cx0.net, chain |-> cx0.chain, pool |-> cx0.pool, coll |-> cx0.coll, builders |-> cx0.builders,
                env |-> cx0.env, fee |-> fee, slot |-> b.slot]
        sum == Summary(cx, b, Subscribed(st.vals, b.vi))
    IN IF ~sum.ok THEN Refuse(st, sum.why)
       ELSE
         LET L0 == [vals |-> st.vals, pool |-> st.pool, dead |-> ""]
             L1 == SubscribeAll(cx, L0, b.subs)
             missedCounts == sum.kind = "missedproposal"    /\ Subscribed(L1.vals, b.vi)
             wrongCounts  == sum.kind = "wrongfeerecipient" /\ Subscribed(L1.vals, b.vi)
             L2 == Proposal(cx, L1, sum)
             L3 == UnsubscribeAll(cx, L2, b.unsubs)
             ds == Donations(cx, b)
             L4 == Donate(cx, L3, ds)
             L5 == Bans(cx, L4, b.bans)
             L6 == Unbans(L5, b.unbans)
             L7 == IF CleanupDue(cx.net, b.slot) THEN Cleanup(cx, L6) ELSE L6
         IN IF L7.dead # "" THEN Refuse(st, L7.dead)
            ELSE [ok |-> TRUE, why |-> "", sum |-> sum, don |-> ds, ers |-> EventsOf(cx, b),
                  missed |-> missedCounts, wrong |-> wrongCounts,
                  prop |-> sum.kind \in {"okpoolproposal", "okpoolproposalblskeys"},
                  st |-> [slot |-> b.slot, next |-> b.slot + 1,
                          block |-> IF b.missed THEN st.block ELSE b.bnum,
                          pool |-> L7.pool, fee |-> fee, vals |-> L7.vals]]

-----------------------------------------------------------------------------
(* Quantities the properties talk about.                                   *)
Owed(st) == Add(st.pool, Add(SumOver(DOMAIN st.vals, [i \in DOMAIN st.vals |-> st.vals[i].acc]),
                             SumOver(DOMAIN st.vals, [i \in DOMAIN st.vals |-> st.vals[i].pend])))

(* What the pool receives in a block: ether it reports, deposits, and the  *)
(* priority fees of a block that names the pool as fee recipient.          *)
Received(cx, b, sum) ==
  LET es == EventsOf(cx, b) IN
  IF b.missed THEN Zero
  ELSE Add(Add(SumSeq([k \in DOMAIN es |-> es[k].val]),
               SumSeq([k \in DOMAIN b.subs |-> b.subs[k].coll])),
           IF b.feeRec = cx.pool /\ sum.rty = "vanila" THEN sum.rew ELSE Zero)

NonNegative(st) == /\ Leq(Zero, st.pool)
                   /\ \A i \in DOMAIN st.vals : Leq(Zero, st.vals[i].acc) /\ Leq(Zero, st.vals[i].pend)

(* Known finding: before fork 1 the rule rounds the cut twice, so a reward  *)
(* of a few thousand wei is shared out as a negative amount.  Those slots   *)
(* are history: changing the rule would change the reports of the past.     *)
PreFork1Tiny(net, exp) == Method(net, exp.slot) = "prefork1" /\ ~NonNegative(exp)
=============================================================================
