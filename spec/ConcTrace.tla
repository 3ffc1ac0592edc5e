----------------------------- MODULE ConcTrace ------------------------------
(***************************************************************************)
(* Trace validation of concurrent use.  In a round the main loop does some *)
(* operations while readers, state dumps, saves and requests run; who goes *)
(* on when was decided by a scheduler, inside the operations too.  The     *)
(* boundaries are the states before, between and after the operations of   *)
(* the main loop.  Whatever was read while operations from+1..to ran is    *)
(* one of the boundaries from..to: the operations are atomic.              *)
(***************************************************************************)
EXTENDS ApiTrace, Conc

VARIABLES bs
cvars == <<l, st, ctx, hist, com, bl, bs>>

Boundary(dig, cdig, csl) == [st |-> st', hist |-> hist', com |-> com', dig |-> dig, cdig |-> cdig, csl |-> csl]
Here == Boundary(Line.dig, Line.cdig, Line.csl)

CInit == AInit /\ bs = <<>>

(* Operations of the main loop.                                            *)
Quiet == Check("P23", l, bs = <<>> \/ Line.digb = bs[Len(bs)].dig, <<"the state changed between two operations of the main loop", Line.ev>>)
COp == /\ Line.ev = "op"
       /\ UNCHANGED <<st, ctx, hist, com, bl>>
       /\ Check("P23", l, Line.dig = Line.digb, <<"the state was changed by", Line.name>>)
       /\ Check("P23", l, Line.name = "save" => Line.out = "ok", <<"the state could not be saved", Line.out>>)
CMain == /\ (Line.ev \in {"block", "freeze"} /\ (ABlock \/ AFreeze)) \/ COp
         /\ Quiet
         /\ bs' = Append(bs, Here)
CRound == /\ Line.ev = "round"
          /\ UNCHANGED <<st, ctx, hist, com, bl>>
          /\ bs' = <<Here>>

(* Readers.                                                                *)
Some(P(_)) == AtBoundary(Line.from, Line.to, LAMBDA k : P(bs[k + 1]))
Complain(ok, what) == Check("P23", l, ok, <<Line.kind, what, "operations", Line.from, Line.to, Line.out, Line.msg>>)

LoadsAs(b) == FeeFits(ctx, b.st) => Line.load = "ok" /\ Line.ldig = b.dig
Request(b) ==
  LET n == Len(b.hist.don)
      q == [Line EXCEPT !.eq = Line.ldig = b.dig, !.donTx = IF n <= Len(@) THEN SubSeq(@, 1, n) ELSE @]
      j == Judge(ctx, b.st, b.hist, b.com, bl, q)
  IN /\ q.code # 0 /\ q.wf
     /\ q.code = 200 => j.may /\ j.right
     /\ q.code # 200 => ~j.must

CRead == /\ Line.ev = "read"
         /\ UNCHANGED <<st, ctx, hist, com, bl, bs>>
         /\ CASE Line.kind = "snapshot" ->
                   /\ Complain(Line.out = "ok" /\ Some(LAMBDA b : b.dig = Line.dig), "a snapshot is not the state between two slots")
                   /\ Complain(Line.end = Line.dig, "a snapshot changed later")
              [] Line.kind = "hash" ->
                   /\ Complain(Line.out = "ok" /\ Some(LAMBDA b : b.dig = Line.dig), "a dump is not the state between two slots")
                   /\ Complain(Line.end = Line.dig, "a dump changed later")
                   /\ Complain(Line.out = "ok" => Some(LAMBDA b : b.dig = Line.dig /\ LoadsAs(b)), "another oracle cannot start from a dump")
              [] Line.kind = "commit" ->
                   /\ Complain(Line.out = "ok" /\ Some(LAMBDA b : b.cdig = Line.dig), "not the latest frozen checkpoint")
                   /\ Complain(Line.end = Line.dig, "a frozen checkpoint changed later")
              [] Line.kind = "slot" ->
                   Complain(Line.out = "ok" /\ Some(LAMBDA b : /\ Line.found <=> b.cdig # "none"
                                                               /\ Line.found => Line.slot = b.csl), "not the slot of the latest frozen checkpoint")
              [] Line.kind = "ckpt" ->
                   Complain(Some(LAMBDA b : IF b.st.slot >= ctx.deploy THEN Line.out = "ok" /\ Line.found = Due(ctx, b.st.slot) ELSE TRUE),
                            "not whether a checkpoint is due")
              [] Line.kind = "save" ->
                   /\ Complain(Line.out = "ok" \/ (Line.fault /\ Line.out = "err"), "the state could not be saved")
                   /\ Complain(Line.out = "ok" => Some(LAMBDA b : LoadsAs(b) /\ (Line.load = "ok" => Line.ldig = b.dig)), "the saved state is not the state between two slots")
              [] OTHER ->
                   /\ Complain(Some(Request), <<"no single state gives this reply", Line.ep, Line.url, Line.code, Line.body>>)

CDead == /\ Line.ev = "deadlock"
         /\ UNCHANGED <<st, ctx, hist, com, bl, bs>>
         /\ Check("P23", l, FALSE, <<"deadlock", Line.stuck>>)
(* The state changes only in the hands of one that keeps everybody else    *)
(* out: what runs under a lock that others share leaves it as it is.       *)
CWild == /\ Line.ev = "wild"
         /\ UNCHANGED <<st, ctx, hist, com, bl, bs>>
         /\ Check("P23", l, FALSE, <<"the state was changed without a lock that keeps the others out", Line.who>>)
CRace == /\ Line.ev = "race"
         /\ UNCHANGED <<st, ctx, hist, com, bl, bs>>
         /\ Check("P23", l, FALSE, <<"the same memory is touched without any order", Line.who>>)
CProgs == /\ Line.ev = "progs"       \* for Locks.tla
          /\ UNCHANGED <<st, ctx, hist, com, bl, bs>>

CNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ \/ (AStart \/ AWorld \/ ABeacon) /\ bs' = <<>>
            \/ CRound \/ CMain \/ CRead \/ CDead \/ CWild \/ CRace \/ CProgs

CSpec == CInit /\ [][CNext]_cvars
=============================================================================
