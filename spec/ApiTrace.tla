------------------------------ MODULE ApiTrace ------------------------------
(***************************************************************************)
(* Trace validation of the HTTP service: the history of the oracle (blocks *)
(* and freezes) and the requests made to it in between.                    *)
(***************************************************************************)
EXTENDS PoolTrace, Api

VARIABLES hist, com, bl
avars == <<l, st, ctx, hist, com, bl>>

NoHist == [prop |-> <<>>, missed |-> <<>>, wrong |-> <<>>, don |-> <<>>]

AInit == TInit /\ hist = NoHist /\ com = <<>> /\ bl = <<>>

(* One request: what is wrong with it, if anything.                        *)
Served(j) ==
  LET ok == Line.code = 200 IN
  /\ Check(j.pid, l, Line.code # 0, <<Line.ep, Line.url, "no reply", Line.msg>>)
  /\ Check(j.pid, l, Line.code # 0 => Line.wf, <<Line.ep, Line.url, "ill-formed reply", Line.code, Line.msg>>)
  /\ Check(j.pid, l, Line.same, <<Line.ep, Line.url, "the request changed the state">>)
  /\ Check(j.pid, l, ok => j.may, <<Line.ep, Line.url, "answered, but an error was due", Line.body>>)
  /\ Check(j.pid, l, j.right, <<Line.ep, Line.url, "wrong answer", Line.body>>)
  /\ Check(j.pid, l, ~ok /\ Line.code # 0 => ~j.must \/ Line.faulty, <<Line.ep, Line.url, "refused", Line.code, Line.msg>>)

Query(cx) == Served(Judge(cx, st, hist, com, bl, Line))

AQuery  == /\ Line.ev = "api"
           /\ UNCHANGED <<st, ctx, hist, com, bl>>
           /\ Query(ctx)
AWorld  == /\ Line.ev = "apiworld"
           /\ hist' = NoHist /\ com' = <<>>
           /\ UNCHANGED <<st, ctx, bl>>
ABeacon == /\ Line.ev = "beacon"
           /\ bl' = FnOf(Line.list, LAMBDA r : r.id, LAMBDA r : r)
           /\ UNCHANGED <<st, ctx, hist, com>>
AFreeze == /\ Line.ev = "freeze"
           /\ LET c == Frozen(ctx, st)
              IN /\ Check("P20", l, Line.enough = HasTree(c.leaves), <<"freeze", Line.enough>>)
                 /\ com' = IF Line.enough
                           THEN Put(com, st.slot, [vals |-> c.vals, fees |-> c.fees, leaves |-> c.leaves, root |-> Line.root])
                           ELSE com
           /\ UNCHANGED <<st, ctx, hist, bl>>
ABlock  == /\ TraceBlockLine
           /\ UNCHANGED <<com, bl>>
           /\ hist' = [prop   |-> hist.prop \o Line.new.prop,
                       missed |-> hist.missed \o Line.new.missed,
                       wrong  |-> hist.wrong \o Line.new.wrong,
                       don    |-> hist.don \o [k \in DOMAIN Line.new.don |->
                                      [from |-> Line.new.don[k].from, val |-> Line.new.don[k].val, bnum |-> Line.b.bnum]]]
AStart  == /\ Line.ev = "init"
           /\ st' = StOf(Line.st)
           /\ ctx' = CtxOf(Line) @@ [deploy |-> Line.deploy]
           /\ UNCHANGED <<hist, com, bl>>

ANext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ AStart \/ AWorld \/ ABeacon \/ ABlock \/ AFreeze \/ AQuery

ASpec == AInit /\ [][ANext]_avars
=============================================================================
