----------------------------- MODULE FetchTrace -----------------------------
(* Blocks fetched by the real code from nodes that fail, and what the      *)
(* oracle made of them.                                                    *)
EXTENDS PoolTrace, Fetch

TraceFetchLine ==
  /\ Line.ev = "fetch"
  /\ UNCHANGED <<st, ctx>>
  /\ LET n == l
         w == Line
         got == Line.got
         sub == Subscribed(st.vals, w.duty.id)
         bad == \E i \in DOMAIN w.reqs : Failed(w.reqs[i])
     IN
     /\ Check("P24", n, RetriesKept(w.n, w.reqs), <<"repeated more often than configured", w.n, w.reqs>>)
     /\ Check("P24", n, w.out # "changed", <<"fetching changed the state">>)
     /\ IF w.out = "ok"
        THEN /\ Check("P24", n, ~Unanswered(w.reqs), <<"a request that failed was not repeated", w.reqs>>)
             /\ Check("P24", n, got.missed => w.b.missed, <<"taken for a missed slot", w.slot, w.reqs>>)
             /\ Check("P24", n, DutyOk(w, got), <<"proposer", w.duty, got.duty, got.rec>>)
             /\ Check("P24", n, BlockOk(w, got), <<"block", w.b, got>>)
             /\ Check("P24", n, got.missed \/ EventsOk(ctx, w, got), <<"events", w.logs, got>>)
             /\ Check("P24", n, got.missed \/ RecordsOk(w, got), <<"validator records", w.recs, got.subV, got.unsubV>>)
             /\ Check("P24", n, got.missed \/ ReceiptsOk(ctx, w, got, sub), <<"header and receipts", w.b, got.hdr, got.hnum, got.hbase, got.rcpts>>)
        ELSE /\ Check("P24", n, StopJustified(w.n, w.reqs), <<"stopped without need", w.err, w.n, w.reqs>>)

(* Other questions to the nodes: the answer is what is so there.           *)
AskedFor(what) == CASE what \in {"claimed", "balance"} -> "P25"
                    [] what \in {"slotroot", "voted"} -> "P19"
                    [] OTHER -> "P24"
TraceAskLine ==
  /\ Line.ev = "ask"
  /\ UNCHANGED <<st, ctx>>
  /\ LET w == Line
         p == AskedFor(w.what)
         chk(holds, why) == Check(p, l, holds, why)
     IN
     /\ chk(RetriesKept(w.n, w.reqs), <<"repeated more often than configured", w.what, w.n, w.reqs>>)
     /\ IF w.out = "ok" THEN chk(w.val = w.exp, <<"answer", w.what, w.exp, w.val>>)
                        ELSE chk(StopJustified(w.n, w.reqs), <<"no answer", w.what, w.out, w.err, w.n, w.reqs>>)

(* One vote: what the contract gets is the slot and the root that were     *)
(* given, in one transaction without money, and only one that was mined    *)
(* and succeeded counts as made.                                           *)
TraceReportLine ==
  /\ Line.ev = "report"
  /\ UNCHANGED <<st, ctx>>
  /\ LET w == Line
         stopped == w.plan = "refused" \/ \E i \in DOMAIN w.reqs : Failed(w.reqs[i]) /\ w.reqs[i].k # "receipt"
     IN
     /\ Check("P19", l, Len(w.sent) <= 1 /\ \A i \in DOMAIN w.sent :
                  /\ w.well /\ w.sent[i].to = ctx.pool /\ w.sent[i].value = "0"
                  /\ w.sent[i].slot = w.slot /\ w.sent[i].root = w.root,
              <<"transactions of a report", w.slot, w.given, w.sent>>)
     /\ Check("P19", l, w.out = "ok" => Len(w.sent) = 1 /\ w.sent[1].res = "mined", <<"a failed report taken for made", w.plan, w.given, w.sent, w.reqs>>)
     /\ Check("P19", l, w.well /\ w.plan = "mined" /\ ~stopped => w.out = "ok", <<"a report that could be made", w.slot, w.given, w.err, w.reqs>>)

FNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ TraceInitLine \/ TraceBlockLine \/ TraceFetchLine \/ TraceAskLine \/ TraceReportLine
FSpec == TInit /\ [][FNext]_tvars
=============================================================================
