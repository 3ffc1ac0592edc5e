------------------------------- MODULE Fetch -------------------------------
(***************************************************************************)
(* What has to be fetched for a slot, and what the answers of the nodes    *)
(* mean (onchain.go).                                                      *)
(*                                                                         *)
(* A request is a record [k, a, f]: its kind, its argument, and what went  *)
(* wrong with it ("" nothing).  The only answer which says that a slot was *)
(* missed is that of a beacon node which does not have its block.          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, Block

(* An answer to another question, or without content: it is found out, but *)
(* not necessarily as an error of the request.                             *)
Odd(q) == q.f \in {"wrong", "empty", "garble"}
Failed(q) == q.f # ""
Same(p, q) == p.k = q.k /\ p.a = q.a

(* Consecutive failures of the request made at position i, up to there     *)
RECURSIVE RunLen(_, _, _)
RunLen(reqs, i, j) == \* looking back from j
  IF j = 0 THEN 0
  ELSE IF ~Same(reqs[j], reqs[i]) THEN RunLen(reqs, i, j - 1)
  ELSE IF Failed(reqs[j]) THEN 1 + RunLen(reqs, i, j - 1) ELSE 0

(* No request is given up before, or repeated after, n attempts failed.    *)
RetriesKept(n, reqs) ==
  n > 0 => \A i \in DOMAIN reqs : RunLen(reqs, i, i) <= n
StopJustified(n, reqs) ==
  \/ \E i \in DOMAIN reqs : Odd(reqs[i]) /\ \A j \in DOMAIN reqs : j > i => ~Same(reqs[i], reqs[j])
  \/ /\ Len(reqs) > 0 /\ n > 0
     /\ Failed(reqs[Len(reqs)]) /\ RunLen(reqs, Len(reqs), Len(reqs)) = n
(* What was answered with an error and then not asked again is unknown.    *)
Unanswered(reqs) ==
  \E i \in DOMAIN reqs : Failed(reqs[i]) /\ \A j \in DOMAIN reqs : j > i => ~Same(reqs[i], reqs[j])

(* The receipts are needed if the block concerns the pool.                 *)
NeedsReceipts(cx, b, sub) == sub \/ b.feeRec = cx.pool \/ MevToPool(cx, b)

LogsOf(cx, w, ev) == SelectSeq(w.logs, LAMBDA x : x.addr = cx.pool /\ x.bnum = w.b.bnum /\ x.ev = ev)
RecOf(w, id) == LET hits == {k \in DOMAIN w.recs : w.recs[k].id = id}
                IN IF hits = {} THEN [ok |-> FALSE] ELSE w.recs[CHOOSE k \in hits : TRUE]
SameRec(w, id, r) == LET x == RecOf(w, id) IN
  IF ~x.ok THEN ~r.ok
  ELSE r.ok /\ r.idx = x.idx /\ r.status = x.status /\ r.eff = x.eff /\ r.cred = x.cred /\ r.wa = x.wa /\ r.key = x.key

EventSeq(es, f(_)) == [i \in DOMAIN es |-> f(es[i])]

(* The fetched block `got` is the one of world w.                          *)
DutyOk(w, got) == got.duty = w.duty /\ SameRec(w, w.duty.id, got.rec)
BlockOk(w, got) ==
  /\ got.missed = w.b.missed
  /\ ~got.missed => /\ got.slot = w.b.slot /\ got.bnum = w.b.bnum /\ got.feeRec = w.b.feeRec
                    /\ got.pgas = w.b.pgas /\ got.pbase = w.b.pbase /\ got.txs = w.txs
EventsOk(cx, w, got) ==
  ~w.b.missed =>
    LET ers == EventSeq(LogsOf(cx, w, "EtherReceived"), LAMBDA x : [from |-> x.who, val |-> x.num, addr |-> x.addr])
        id(x) == x.id
        who(x) == x.who
        num(x) == x.num
        sub(x) == [who |-> x.who, num |-> x.num, id |-> x.id]
    IN
    /\ got.ers = EventsOf(cx, [w.b EXCEPT !.ers = ers])
    /\ EventSeq(got.subs, sub) = EventSeq(LogsOf(cx, w, "SubscribeValidator"), sub)
    /\ EventSeq(got.unsubs, sub) = EventSeq(LogsOf(cx, w, "UnsubscribeValidator"), sub)
    /\ got.bans = EventSeq(LogsOf(cx, w, "BanValidator"), id)
    /\ got.unbans = EventSeq(LogsOf(cx, w, "UnbanValidator"), id)
    /\ got.fees = EventSeq(LogsOf(cx, w, "UpdatePoolFee"), LAMBDA x : NumOf(x.id))
    /\ got.recips = EventSeq(LogsOf(cx, w, "UpdatePoolFeeRecipient"), who)
    /\ got.csizes = EventSeq(LogsOf(cx, w, "UpdateCheckpointSlotSize"), id)
    /\ got.colls = EventSeq(LogsOf(cx, w, "UpdateSubscriptionCollateral"), num)
RecordsOk(w, got) ==
  ~w.b.missed =>
    /\ Len(got.subV) = Len(got.subs) /\ \A i \in DOMAIN got.subs : SameRec(w, got.subs[i].id, got.subV[i])
    /\ Len(got.unsubV) = Len(got.unsubs) /\ \A i \in DOMAIN got.unsubs : SameRec(w, got.unsubs[i].id, got.unsubV[i])
ReceiptsOk(cx, w, got, sub) ==
  /\ (~w.b.missed /\ NeedsReceipts(cx, w.b, sub)) => got.hdr
  /\ got.hdr => /\ ~w.b.missed
                /\ got.hnum = w.b.bnum /\ got.hbase = w.b.hbase
                /\ Len(got.rcpts) = Len(w.txs)
                /\ \A i \in DOMAIN w.txs : got.rcpts[i].hash = w.txs[i] /\ got.rcpts[i].gas = w.b.txs[i].gas
=============================================================================
