----------------------------- MODULE ConfTrace -----------------------------
(* The configurations real oracles read from nodes serving all kinds of    *)
(* chains and deployments.                                                 *)
EXTENDS TraceBase, Fetch
C == INSTANCE Config

VARIABLE l
ConfLine ==
  LET w == Trace[l] IN
  /\ w.ev = "conf"
  /\ Check("P26", l, RetriesKept(w.in.n, w.reqs), <<"repeated more often than configured", w.in.n, w.reqs>>)
  /\ IF w.out = "ok"
     THEN /\ Check("P26", l, ~C!Refused(w.in), <<"a configuration that had to be refused", w.in>>)
          /\ C!Refused(w.in) \/ Check("P26", l, w.got = C!ConfigOf(w.in), <<"configuration", w.in, C!ConfigOf(w.in), w.got>>)
          /\ Check("P26", l, ~Unanswered(w.reqs), <<"a request that failed was not repeated", w.reqs>>)
     ELSE Check("P26", l, C!Refused(w.in) \/ StopJustified(w.in.n, w.reqs), <<"refused without need", w.in, w.out, w.msg, w.reqs>>)

Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ ConfLine
Spec == Init /\ [][Next]_l
Accepted == Assert(TLCGet("stats").diameter - 1 = Len(Trace), <<"trace not consumed", TLCGet("stats").diameter>>)
=============================================================================
