----------------------------- MODULE PoolTrace -----------------------------
(***************************************************************************)
(* Trace validation of block processing.  Each line of the trace carries   *)
(* the raw content of a slot, what the beacon node knew, and the state the *)
(* real oracle reached; Pool!ApplyBlock says what it had to be.  The spec  *)
(* follows the observed state, so one deviation does not hide the next.    *)
(***************************************************************************)
EXTENDS Pool, TraceBase

VARIABLES l, st, ctx
tvars == <<l, st, ctx>>

ValRec(r) == [st |-> r.st, acc |-> r.acc, pend |-> r.pend, coll |-> r.coll,
              wa |-> r.wa, key |-> r.key, ty |-> r.ty]
StOf(s) == [slot |-> s.slot, next |-> s.next, block |-> s.block, pool |-> s.pool, fee |-> s.fee,
            vals |-> FnOf(s.vals, LAMBDA r : r.id, ValRec)]
EnvOf(e) == [v |-> FnOf(e.v, LAMBDA r : r.id,
                        LAMBDA r : [status |-> r.status, eff |-> r.eff, cred |-> r.cred,
                                    wa |-> r.wa, key |-> r.key]),
             cons |-> e.cons, consErr |-> e.consErr, valErr |-> e.valErr]
CtxOf(i) == [net |-> i.net, chain |-> i.chain, pool |-> i.pool, feeAddr |-> i.feeAddr,
             ckpt |-> i.ckpt, coll |-> i.coll, fee0 |-> i.fee0, builders |-> SeqToSet(i.builders)]

Line == Trace[l]

SumRec(r) == [slot |-> r.slot, block |-> r.block, vi |-> r.vi, key |-> r.key, wa |-> r.wa,
              kind |-> r.kind, rew |-> r.rew, rty |-> r.rty]
EvRec(e) == [from |-> e.from, val |-> e.val, addr |-> e.addr]

Changed(f, g) == \* validators on which two accounts differ
  {i \in DOMAIN f \cup DOMAIN g : i \notin DOMAIN f \/ i \notin DOMAIN g}
     \cup {i \in DOMAIN f \cap DOMAIN g : f[i] # g[i]}
On(f, S, part(_)) == [i \in S \cap DOMAIN f |-> part(f[i])]
Col(f, part(_)) == On(f, DOMAIN f, part)

(* The properties, each on one observed step: pre -b-> obs, where the      *)
(* specification gives exp.                                                *)
CheckOk(n, cx, pre, b, exp, obs, new) ==
  LET E   == exp.st
      all == DOMAIN E.vals \cup DOMAIN obs.vals
      sum == exp.sum
      subIds   == {b.subs[k].id : k \in DOMAIN b.subs}
      unsubIds == {b.unsubs[k].id : k \in DOMAIN b.unsubs}
      banIds   == SeqToSet(b.bans) \cup SeqToSet(b.unbans) \cup (IF exp.wrong THEN {b.vi} ELSE {})
      clean    == CleanupDue(cx.net, b.slot)
      money(v) == <<v.acc, v.pend>>
      same(part(_), S) == On(E.vals, S, part) = On(obs.vals, S, part)
      id(v) == v
      accOf(v) == v.acc
      pendOf(v) == v.pend
      stOf(v) == v.st
      received == Received(cx, b, sum)
      samePend == same(pendOf, all) /\ E.pool = obs.pool
      dist == sum.kind = "okpoolproposal" \/ exp.wrong \/ exp.don # <<>> \/ b.unsubs # <<>>
              \/ b.bans # <<>> \/ clean
      vanilla == sum.rty = "vanila"
      expNew(flag) == IF flag THEN <<SumRec(sum)>> ELSE <<>>
  IN
  /\ Check("P01", n, Sub(Owed(obs), Owed(pre)) = received, <<"owed", Owed(pre), Owed(obs), "received", received>>)
  /\ IF PreFork1Tiny(cx.net, E) /\ obs = E THEN Known("P01", "prefork1-tiny", n)
     ELSE Check("P01", n, NonNegative(obs), <<"negative balance", obs.pool, Col(obs.vals, money)>>)
  /\ Check("P02", n, Col(E.vals, stOf) = Col(obs.vals, stOf),
           <<"status", Col(pre.vals, stOf), "expected", Col(E.vals, stOf), "observed", Col(obs.vals, stOf)>>)
  /\ Check("P02", n, new.missed = expNew(exp.missed), <<"missed blocks", new.missed>>)
  /\ Check("P02", n, new.wrong = expNew(exp.wrong), <<"wrong fee blocks", new.wrong>>)
  /\ Check("P03", n, dist => samePend, <<"pending", Col(E.vals, pendOf), E.pool, "observed", Col(obs.vals, pendOf), obs.pool>>)
  /\ Check("P04", n, same(accOf, all), <<"claimable", Col(E.vals, accOf), "observed", Col(obs.vals, accOf)>>)
  /\ LET kept(vals) == \A i \in DOMAIN pre.vals : i \in DOMAIN vals /\ Leq(pre.vals[i].acc, vals[i].acc)
     IN IF ~kept(E.vals) /\ Method(cx.net, b.slot) = "prefork1" /\ obs = E THEN Known("P04", "prefork1-tiny", n)
        ELSE Check("P04", n, kept(obs.vals), <<"claimable decreased">>)
  /\ Check("P04", n, \A i \in DOMAIN pre.vals \cap DOMAIN obs.vals \cap DOMAIN E.vals :
                        Leq(E.vals[i].pend, obs.vals[i].pend) \/ ~Lt(obs.vals[i].pend, pre.vals[i].pend),
           <<"pending lost", Col(pre.vals, pendOf), Col(obs.vals, pendOf)>>)
  /\ Check("P05", n, subIds # {} => /\ same(id, subIds) /\ E.pool = obs.pool
                                    /\ DOMAIN E.vals = DOMAIN obs.vals,
           <<"subscription", On(E.vals, subIds, id), E.pool, "observed", On(obs.vals, subIds, id), obs.pool>>)
  /\ Check("P06", n, unsubIds # {} => same(stOf, all) /\ same(accOf, unsubIds) /\ samePend,
           <<"unsubscription", E, "observed", obs>>)
  /\ Check("P07", n, banIds # {} => same(stOf, all) /\ same(accOf, banIds) /\ samePend, <<"ban", E, "observed", obs>>)
  /\ Check("P07", n, \A i \in all : i \in DOMAIN obs.vals /\ obs.vals[i].st = "banned"
                         => i \in DOMAIN E.vals /\ E.vals[i].st = "banned", <<"banned without cause">>)
  /\ Check("P08", n, new.prop = expNew(exp.prop) /\ new.missed = expNew(exp.missed) /\ new.wrong = expNew(exp.wrong),
           <<"classification", sum, "observed", new.prop, new.missed, new.wrong>>)
  /\ Check("P08", n, [k \in DOMAIN exp.don |-> EvRec(exp.don[k])] = new.don /\ [k \in DOMAIN exp.ers |-> EvRec(exp.ers[k])] = new.ers,
           <<"donations", exp.don, "observed", new.don, new.ers>>)
  /\ Check("P09", n, vanilla /\ (exp.prop \/ exp.wrong) => \A k \in DOMAIN (new.prop \o new.wrong) : (new.prop \o new.wrong)[k].rew = sum.rew,
           <<"tip", sum.rew, "observed", new.prop, new.wrong>>)
  /\ Check("P09", n, vanilla /\ exp.prop => samePend /\ same(accOf, all), <<"tip amounts">>)
  /\ Check("P10", n, clean => same(id, all) /\ E.pool = obs.pool /\ DOMAIN E.vals = DOMAIN obs.vals,
           <<"clean-up", E, "observed", obs>>)
  /\ Check("P10", n, ~clean => DOMAIN E.vals = DOMAIN obs.vals /\
              \A i \in all : (E.vals[i].st # "notsubscribed" => obs.vals[i].st # "notsubscribed"), <<"clean-up out of turn">>)
  /\ Check("P12", n, obs.slot = E.slot /\ obs.next = E.next /\ obs.block = E.block,
           <<"slots", E.slot, E.next, E.block, "observed", obs.slot, obs.next, obs.block>>)
  /\ Check("P13", n, obs.fee = E.fee, <<"fee", E.fee, "observed", obs.fee>>)
  /\ Check("P13", n, b.fees # <<>> => samePend, <<"fee of this block not applied">>)
  /\ \A p \in {"P02", "P08", "P16"} : Check(p, n, new.prefix, <<"history rewritten">>)
  /\ Check("P05", n, new.subs = Len(b.subs), <<"subscription events recorded", new.subs>>)
  /\ Check("P06", n, new.unsubs = Len(b.unsubs), <<"unsubscription events recorded", new.unsubs>>)

(* Which property a wrong acceptance or a wrong refusal breaks.            *)
WhyLabel(why) ==
  CASE why = "slot" -> "P12"
    [] why = "governance" -> "P13"
    [] why = "tip" -> "P09"
    [] why \in {"chain"} -> "P08"
    [] why \in {"subindex"} -> "P05"
    [] why \in {"unsubindex"} -> "P06"
    [] why \in {"network", "validators"} -> "P03"
    [] why \in {"cleanup", "target", "targetbls"} -> "P10"
    [] OTHER -> "P12"

CheckBlock(n, cx, pre, b, ok, obs, new) ==
  LET exp == ApplyBlock(cx, pre, b)
  IN IF exp.ok /\ ok THEN CheckOk(n, cx, pre, b, exp, obs, new)
     ELSE IF exp.ok /\ ~ok
       THEN /\ Check("P12", n, FALSE, <<"a valid block was refused", Line.err>>)
            /\ (b.fees # <<>> \/ b.recips # <<>> \/ b.csizes # <<>> \/ b.colls # <<>>)
                  => Check("P13", n, FALSE, <<"a valid block was refused", Line.err>>)
            /\ (exp.sum.rty = "vanila") => Check("P09", n, FALSE, <<"a valid block was refused", Line.err>>)
            /\ (b.subs # <<>>) => Check("P05", n, FALSE, <<"a valid block was refused", Line.err>>)
            /\ (b.unsubs # <<>>) => Check("P06", n, FALSE, <<"a valid block was refused", Line.err>>)
            /\ (b.bans # <<>>) => Check("P07", n, FALSE, <<"a valid block was refused", Line.err>>)
            /\ (b.txs # <<>>) => Check("P08", n, FALSE, <<"a valid block was refused", Line.err>>)
            /\ CleanupDue(cx.net, b.slot) => Check("P10", n, FALSE, <<"a valid block was refused", Line.err>>)
            /\ (exp.st.vals # pre.vals) => Check("P03", n, FALSE, <<"a valid block was refused", Line.err>>)
     ELSE IF ~exp.ok /\ ok
       THEN /\ Check(WhyLabel(exp.why), n, FALSE, <<"a bad block was accepted", exp.why>>)
            /\ WhyLabel(exp.why) = "P12" \/ Check("P12", n, FALSE, <<"a bad block was accepted", exp.why>>)
     ELSE /\ Check("P12", n, obs = pre, <<"a refused block changed the state", exp.why, pre, obs>>)
          /\ Check("P13", n, exp.why = "governance" => obs = pre, <<"a refused governance change took effect", pre, obs>>)
          /\ Check("P12", n, new.prefix /\ new.prop = <<>> /\ new.missed = <<>> /\ new.wrong = <<>> /\ new.don = <<>>
                              /\ new.ers = <<>> /\ new.subs = 0 /\ new.unsubs = 0,
                   <<"a refused block was recorded", exp.why>>)

TInit == /\ l = 1
         /\ st = [slot |-> 0]
         /\ ctx = [net |-> ""]

TraceInitLine ==
  /\ Line.ev = "init"
  /\ st' = StOf(Line.st)
  /\ ctx' = CtxOf(Line)

TraceBlockLine ==
  /\ Line.ev = "block"
  /\ st' = StOf(Line.st)
  /\ ctx' = ctx
  /\ CheckBlock(l, [net |-> ctx.net, chain |-> ctx.chain, pool |-> ctx.pool, feeAddr |-> ctx.feeAddr,
                    ckpt |-> ctx.ckpt, coll |-> ctx.coll, builders |-> ctx.builders, env |-> EnvOf(Line.env)],
                st, Line.b, Line.ok, st', Line.new)

TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ TraceInitLine \/ TraceBlockLine

TSpec == TInit /\ [][TNext]_tvars
Accepted == Assert(TLCGet("stats").diameter - 1 = Len(Trace), <<"trace not consumed", TLCGet("stats").diameter>>)
=============================================================================
