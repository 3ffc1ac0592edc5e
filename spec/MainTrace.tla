----------------------------- MODULE MainTrace -----------------------------
(* The real program, run between nodes of ours (see run.go): a reference   *)
(* oracle gives what is so at every slot (NodeTrace); the life of every    *)
(* process must be one that Main.tla allows, whenever it is stopped or     *)
(* killed, and whatever requests fail.                                     *)
EXTENDS NodeTrace, Main

VARIABLES p, disk, fees, stuck, nobal
mvars == <<l, w, nodes, canon, snaps, hashes, p, disk, fees, stuck, nobal>>
refvars == <<w, nodes, canon, snaps, hashes, fees, stuck, nobal>>

HasTreeAt(s) == s \in DOMAIN snaps /\ snaps[s][1] # "none"
RootAt(s)    == IF HasTreeAt(s) THEN snaps[s][2] ELSE ""
ComsTo(s)    == [k \in SnapsUpTo(s) |-> snaps[k]]
(* The memory of an oracle that processed slot s and dealt with it.        *)
MemAt(s)     == [slot |-> s, acc |-> canon[s], com |-> ComsTo(s), fee |-> fees[s]]
(* ... before it froze the checkpoint.                                     *)
MemBare(s)   == [MemAt(s) EXCEPT !.com = [k \in DOMAIN @ \ {s} |-> @[k]]]
Fresh        == MemAt(w.deploy - 1)

P(pid, holds, why) == Check(pid, l, holds, why)
P2(a, b, holds, why) == P(a, holds, why) /\ P(b, holds, why)

RefLine ==
  /\ \/ WorldLine /\ fees' = NoFn /\ stuck' = {} /\ nobal' = {} /\ disk' = NoFiles /\ p' = NoLife
     \/ /\ StartLine \/ BlockLine
        /\ fees' = PutAt(fees, Line.m.slot, Line.m.fee)
        /\ UNCHANGED <<p, disk, stuck, nobal>>
     \/ FreezeLine /\ UNCHANGED <<p, disk, fees, stuck, nobal>>

NoteLine ==
  /\ Line.ev \in {"refused", "nobalance"}
  /\ stuck' = IF Line.ev = "refused" THEN stuck \cup {Line.n} ELSE stuck
  /\ nobal' = IF Line.ev = "nobalance" THEN nobal \cup {Line.n} ELSE nobal
  /\ UNCHANGED <<w, nodes, canon, snaps, hashes, fees, p, disk>>

BootLine ==
  /\ Line.ev = "boot"
  /\ LET ld == AtStart(w, disk, Fresh, Line.sync, MemOf(Line.sm))
     IN p' = [NoLife EXCEPT !.phase = "start", !.dry = Line.dry, !.bad = Line.bad, !.sync = Line.sync, !.res = ld.res, !.mem = ld.m,
                            !.tainted = (Line.sync = "unbalanced") \/ (ld.m.slot \in DOMAIN canon /\ ld.m.acc # canon[ld.m.slot])]
  /\ UNCHANGED <<refvars, disk>>

(* The loop begins: nothing was wrong with the configuration, and what had *)
(* to be loaded could be.                                                  *)
Enter ==
  /\ P("P26", p.bad = "", <<"runs in spite of a wrong configuration", p.bad>>)
  /\ P2("P17", "P16", p.res # "refused", <<"goes on without a state it can use", p.sync, p.mem.slot, p.last, DOMAIN disk>>)

(* The end of an iteration of the loop, seen at the first request of the   *)
(* next one.                                                               *)
EndOfIteration ==
  LET s == p.at IN
  /\ p.fetch =>
       /\ P2("P12", "P11", s \notin stuck, <<"went on past a block that is refused", s>>)
       /\ P("P25", s \notin nobal /\ ~(p.tainted /\ Due(w, s)), <<"went on past a checkpoint with books that do not balance", s>>)
       /\ (Due(w, s) /\ HasTreeAt(s) /\ ~p.tainted) =>
            /\ P("P19", MayGoOn(w, p, s, RootAt(s)), <<"went on before the checkpoint was consolidated", s, p.last, p.root, RootAt(s), p.sent>>)
            /\ P("P16", s \in DOMAIN disk /\ 0 \in DOMAIN disk /\ disk[0] = disk[s], <<"the state of a checkpoint was not saved", s, DOMAIN disk>>)
            /\ P("P17", s \in DOMAIN disk /\ 0 \in DOMAIN disk, <<"the state of a checkpoint was not saved", s, DOMAIN disk>>)
  /\ P("P25", p.books # "wrong" \/ p.iflt, <<"went on although the contract's balance is wrong">>)

Ended(q) == [q EXCEPT !.fetch = FALSE, !.books = "none", !.iflt = FALSE]

(* The state it started from is at a checkpoint that is not frozen yet.    *)
Bare == p.first /\ Due(w, p.at) /\ p.at \notin DOMAIN p.mem.com

(* One question and its answer; ok = FALSE: it failed.                     *)
QLine ==
  /\ Line.ev = "q"
  /\ UNCHANGED <<refvars, disk>>
  /\ LET k   == Line.k
         n   == Line.n
         new == k \in {"eth_syncing", "header"} /\ (p.fetch \/ p.books # "none")
         enter == k = "loop"
         a   == IF enter THEN [p EXCEPT !.phase = "loop", !.at = p.mem.slot] ELSE IF new THEN Ended(p) ELSE p
         b   == IF Line.ok THEN a ELSE [a EXCEPT !.flt = TRUE, !.iflt = TRUE]
     IN
     /\ enter => Enter
     /\ P("P19", ~p.txdead \/ k = "receipt", <<"goes on after a transaction that failed", k, p.at>>)
     /\ (new /\ p.phase = "loop") => EndOfIteration
     /\ CASE p.phase = "start" /\ k = "last" /\ Line.ok ->
               LET ld == AfterContract(w, disk, p.dry, [res |-> p.res, m |-> p.mem], n)
               IN p' = [b EXCEPT !.res = ld.res, !.mem = ld.m, !.last = n,
                                 !.tainted = IF ld.m # p.mem THEN ld.m.slot \in DOMAIN canon /\ ld.m.acc # canon[ld.m.slot] ELSE @]
          [] k = "syncing" /\ Line.ok     -> p' = [b EXCEPT !.con = @ \cup {n}]
          [] k = "eth_syncing" /\ Line.ok -> p' = [b EXCEPT !.exe = @ \cup {100 * n}]
          [] k = "header" ->
               /\ P("P12", p.phase # "loop" \/ b.iflt \/ ~MustFetch(p) \/ Bare, <<"a final slot was not processed", p.at + 1, p.hdr>>)
               /\ p' = IF Line.ok THEN [b EXCEPT !.hdr = n] ELSE b
          [] k = "block" /\ p.phase = "loop" ->
               IF p.fetch
               THEN /\ P("P12", n = p.at, <<"another slot in between", p.at, n>>)
                    /\ p' = b
               ELSE /\ P("P12", n = p.at + 1, <<"next slot", p.at, n>>)
                    /\ p.first => P("P17", n = p.at + 1, <<"first slot after a start", p.at, n>>)
                    /\ (Bare /\ ~p.tainted /\ HasTreeAt(p.at)) =>
                         P2("P15", "P17", p.at \in DOMAIN disk, <<"a checkpoint that was reached was left out after a restart", p.at>>)
                    /\ P("P24", MayFetch(p, n), <<"not final, or not in sync", n, p.hdr, p.con, p.exe>>)
                    /\ p' = [b EXCEPT !.at = n, !.fetch = TRUE, !.first = FALSE, !.con = {}, !.exe = {}, !.hdr = None, !.last = None, !.voted = None,
                                      !.root = "", !.idle = 0, !.sent = FALSE, !.txbad = FALSE, !.txdead = FALSE, !.waits = FALSE, !.books = "none", !.flt = ~Line.ok, !.iflt = ~Line.ok]
          [] k = "voted" /\ Line.ok    -> p' = [b EXCEPT !.voted = n]
          [] k = "last" /\ Line.ok     ->
               LET idle == IF p.phase # "loop" \/ p.idle < 0 \/ n = p.at \/ n + w.ckpt = p.at THEN -1 ELSE p.idle + 1
               IN /\ P("P19", p.phase # "loop" \/ idle <= Patience, <<"waits although the contract does not expect this checkpoint", p.at, n>>)
                  /\ p' = [b EXCEPT !.last = n, !.idle = IF p.phase = "loop" THEN idle ELSE 0]
          [] k = "root" /\ Line.ok     -> p' = [b EXCEPT !.root = Line.s]
          [] k = "balance" /\ Line.ok /\ p.phase = "loop" ->
               p' = [b EXCEPT !.books = IF (n = 1) = p.tainted THEN (IF p.tainted THEN "either" ELSE "right") ELSE "wrong"]
          [] k = "estimate" /\ Line.ok -> p' = [b EXCEPT !.txbad = @ \/ Line.s # "", !.txdead = @ \/ Line.s = "refused", !.waits = TRUE]
          [] OTHER -> p' = b

TxLine ==
  /\ Line.ev = "tx"
  /\ UNCHANGED <<refvars, disk>>
  /\ P("P19", ~p.dry, <<"a transaction of a dry run">>)
  /\ P("P19", Line.to = w.pool /\ Line.value = "0" /\ Line.res # "other", <<"not a report to the contract", Line.to, Line.value>>)
  /\ P("P19", MaySubmit(w, p, Line.slot, Line.root), <<"this report was not due", Line.slot, p.at, p.last, p.voted, p.sent>>)
  /\ P("P19", HasTreeAt(Line.slot) /\ Line.root = RootAt(Line.slot), <<"root", Line.root, RootAt(Line.slot)>>)
  /\ p' = [p EXCEPT !.sent = TRUE, !.waits = TRUE, !.txbad = @ \/ Line.res # "mined", !.txdead = @ \/ Line.res # "mined"]

FileOf(f) == [ok |-> f.ok, m |-> MemOf(f.m)]
Right(m) == /\ m.slot \in DOMAIN canon
           /\ m.acc = canon[m.slot] /\ m.fee = fees[m.slot]
           /\ m = MemAt(m.slot)

DiskLine ==
  LET d == FnOf(Line.files, LAMBDA f : f.key, LAMBDA f : FileOf(f))
      s == p.at
      changed == {k \in DOMAIN d : k \notin DOMAIN disk \/ d[k] # disk[k]}
  IN
  /\ Line.ev = "disk"
  /\ UNCHANGED <<refvars, p>>
  /\ disk' = d
  /\ P("P17", DOMAIN disk \subseteq DOMAIN d, <<"a state file is gone", DOMAIN disk, DOMAIN d>>)
  /\ P("P26", p.phase = "loop", <<"a state file was written before the oracle started", changed>>)
  /\ \A k \in changed :
       /\ P2("P16", "P17", d[k].ok = "yes", <<"a damaged file was written", k>>)
       /\ (d[k].ok = "yes" /\ ~p.tainted) =>
            LET m == d[k].m IN
            /\ P("P16", k = 0 \/ k = m.slot, <<"the file of another slot", k, m.slot>>)
            /\ P("P11", m.slot \in DOMAIN canon => canon[m.slot] = m.acc, <<"another state at slot", m.slot>>)
            /\ P("P13", m.slot \in DOMAIN fees => fees[m.slot] = m.fee, <<"fee", m.slot, m.fee>>)
            /\ P("P15", \A x \in DOMAIN m.com : x \in DOMAIN snaps => snaps[x] = m.com[x], <<"a snapshot differs", m.slot>>)
            /\ P2("P16", "P17", m.slot \in {s, s - 1}, <<"the state of another slot", s, m.slot>>)
            /\ P2("P15", "P17", Right(m) \/ (m.slot \in DOMAIN canon /\ m = MemBare(m.slot)), <<"snapshots of the state of", m.slot, DOMAIN m.com>>)
            \* a checkpoint's own file: the checkpoint, frozen, and dealt with
            /\ k # 0 =>
                 /\ P2("P15", "P16", k = s /\ Due(w, s) /\ HasTreeAt(s) /\ Right(m), <<"not the state of a checkpoint", k, s>>)
                 /\ P2("P17", "P19", MayGoOn(w, p, s, RootAt(s)), <<"saved before it was consolidated", s, p.last, p.root>>)
       /\ P("P25", ~(p.tainted /\ k # 0 /\ k >= p.mem.slot /\ p.fetch), <<"a checkpoint with books that do not balance was saved", k>>)

(* Why a process may end by itself.                                        *)
Reasons == {r \in {"configuration", "state", "failed request", "refused block", "books", "report", "taint"} :
  CASE r = "configuration"  -> p.phase = "start" /\ p.bad # ""
    [] r = "state"          -> p.phase = "start" /\ p.res = "refused"
    [] r = "failed request" -> p.flt
    [] r = "refused block"  -> p.fetch /\ p.at \in stuck
    [] r = "books"          -> (p.fetch /\ p.at \in nobal) \/ p.books \in {"wrong", "either"}
    [] r = "report"         -> p.txbad
    [] r = "taint"          -> p.tainted}

ExitLine ==
  /\ Line.ev = "exit"
  /\ UNCHANGED <<refvars, disk>>
  /\ p' = NoLife
  /\ CASE Line.how = "self" ->
            /\ P(IF p.phase = "start" THEN "P26" ELSE "P12", Reasons # {}, <<"stopped without a reason", Line.code, Line.tail>>)
            /\ p.phase = "loop" => P2("P19", "P25", Reasons # {}, <<"stopped without a reason", Line.code, Line.tail>>)
            /\ p.phase = "start" => P2("P17", "P16", Reasons # {}, <<"stopped without a reason", Line.code, Line.tail>>)
            /\ P("P26", Line.code # 0, <<"an end without an error", Line.tail>>)
       [] Line.how = "term" ->
            (Line.code = 0 /\ ~p.tainted /\ p.phase = "loop") =>
              P2("P17", "P16", 0 \in DOMAIN disk /\ disk[0].ok = "yes"
                         /\ \/ disk[0].m \in {MemAt(s) : s \in {p.at, p.at - 1} \cap DOMAIN canon}
                            \/ p.at \in DOMAIN canon /\ disk[0].m = MemBare(p.at),
                  <<"the state was not saved at the end", p.at, DOMAIN disk>>)
       [] Line.how = "hang" -> \A x \in {"P12", "P19", "P23"} : P(x, FALSE, <<"no request for a minute", p.at>>)
       [] OTHER -> TRUE

MInit == TInit /\ p = NoLife /\ disk = NoFiles /\ fees = NoFn /\ stuck = {} /\ nobal = {}
MNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ RefLine \/ NoteLine \/ BootLine \/ QLine \/ TxLine \/ DiskLine \/ ExitLine
MSpec == MInit /\ [][MNext]_mvars
=============================================================================
