----------------------------- MODULE NodeTrace -----------------------------
(* Real oracles that follow one chain, save, stop, start, load and roll    *)
(* back: every recorded step must be a step of Node.tla, and whatever two  *)
(* of them know about a slot must be the same (canon, snaps, hashes).      *)
EXTENDS TraceBase, Num, Merkle, Node

VARIABLES l, w, nodes, canon, snaps, hashes
tvars == <<l, w, nodes, canon, snaps, hashes>>

Line == Trace[l]
NoFn == [x \in {} |-> ""]

ComOf(seq) == FnOf(seq, LAMBDA c : c.slot, LAMBDA c : <<c.dig, c.root>>)
MemOf(m)  == [slot |-> m.slot, acc |-> m.acc, com |-> ComOf(m.com), fee |-> m.fee]
Node0     == [m |-> FreshMem(w, ""), disk |-> NoFiles, loaded |-> FALSE]

(* The checkpoints a memory at slot s must know, if `snaps` knows them.    *)
SnapsUpTo(s) == {k \in DOMAIN snaps : k <= s /\ snaps[k][1] # "none"}
Both(p, q, n, holds, why) == Check(p, n, holds, why) /\ Check(q, n, holds, why)

\* what every observation of a memory must satisfy
Agrees(n, o, m, loaded) ==
  /\ IF m.slot \in DOMAIN canon
     THEN /\ Check("P11", n, canon[m.slot] = m.acc, <<"another oracle has another state at slot", m.slot, o>>)
          /\ loaded => Both("P16", "P17", n, canon[m.slot] = m.acc, <<"state after a reload differs at slot", m.slot, o>>)
     ELSE TRUE
  /\ Check("P11", n, \A s \in DOMAIN m.com : s \in DOMAIN snaps => snaps[s] = m.com[s], <<"another snapshot", m.com>>)
  /\ Check("P15", n, \A s \in DOMAIN m.com : s \in DOMAIN snaps => snaps[s] = m.com[s], <<"a snapshot differs or changed", m.com>>)
  /\ loaded => Check("P17", n, \A s \in DOMAIN m.com : s \in DOMAIN snaps => snaps[s] = m.com[s], <<"a snapshot differs", m.com>>)

Unchanged(n, pid, old, obs, why) == Check(pid, n, obs = old, <<why, old, obs>>)

WorldLine ==
  /\ Line.ev = "world"
  /\ w' = [net |-> Line.net, deploy |-> Line.deploy, ckpt |-> Line.ckpt, fee0 |-> Line.fee0, feeAddr |-> Line.feeAddr, pool |-> Line.pool]
  /\ nodes' = [o \in 0..(Line.n - 1) |-> [m |-> [slot |-> 0, acc |-> "", com |-> NoSnapshots, fee |-> 0], disk |-> NoFiles, loaded |-> FALSE]]
  /\ canon' = NoFn /\ snaps' = NoFn /\ hashes' = {}

(* A new process with an empty memory; its disk stays.                     *)
StartLine ==
  LET obs == MemOf(Line.m)
  IN /\ Line.ev = "start"
     /\ Check("P12", l, obs.slot = w.deploy - 1 /\ Line.m.next = w.deploy, <<"first slot", obs>>)
     /\ Check("P15", l, obs.com = NoSnapshots, <<"snapshots of a new oracle", obs>>)
     /\ Check("P13", l, obs.fee = w.fee0, <<"fee of a new oracle", obs>>)
     /\ Agrees(l, Line.o, obs, FALSE)
     /\ nodes' = [nodes EXCEPT ![Line.o] = [@ EXCEPT !.m = obs, !.loaded = FALSE]]
     /\ canon' = PutAt(canon, obs.slot, obs.acc)
     /\ UNCHANGED <<w, snaps, hashes>>

BlockLine ==
  LET o   == Line.o
      old == nodes[o].m
      obs == MemOf(Line.m)
      ok  == Line.out = "ok"
  IN /\ Line.ev = "block"
     /\ Check("P11", l, Line.inSame, <<"the inputs of the slot were changed", Line.slot>>)
     /\ \A i \in 1..Len(Line.again) :
          Check("P11", l, Line.again[i] = (IF ok THEN Line.m.acc ELSE Line.out), <<"the same block on a copy of the oracle", Line.slot, Line.out, Line.msg, Line.again>>)
     /\ IF ok
        THEN /\ Check("P12", l, obs.slot = old.slot + 1 /\ Line.m.next = obs.slot + 1, <<"slot", old.slot, obs.slot>>)
             /\ Check("P15", l, obs.com = old.com, <<"processing a slot changed snapshots", old.com, obs.com>>)
             /\ Agrees(l, o, obs, nodes[o].loaded)
             /\ Check("P13", l, Line.m.cfgFee = obs.fee, <<"fee used and fee of the state", Line.m.cfgFee, obs.fee>>)
             /\ Check("P15", l, Line.ck = (IF Due(w, obs.slot) THEN "true" ELSE "false"), <<"checkpoint due", obs.slot, w.deploy, w.ckpt, Line.ck>>)
        ELSE /\ Check("P12", l, obs = old /\ Line.m.next = old.slot + 1, <<"a refused block changed the state", old, obs>>)
             /\ Check("P12", l, Line.slot \notin DOMAIN canon, <<"a block accepted by another oracle was refused", Line.slot, Line.msg>>)
             /\ Check("P11", l, Line.slot \notin DOMAIN canon, <<"a block accepted by another oracle was refused", Line.slot, Line.msg>>)
             /\ nodes[o].loaded => Check("P17", l, Line.slot \notin DOMAIN canon, <<"a block accepted by another oracle was refused", Line.slot, Line.msg>>)
             /\ nodes[o].loaded => Check("P16", l, Line.slot \notin DOMAIN canon, <<"a block accepted by another oracle was refused", Line.slot, Line.msg>>)
             /\ nodes[o].loaded => Check("P13", l, Line.slot \notin DOMAIN canon, <<"a block accepted by another oracle was refused", Line.slot, Line.msg>>)
     /\ nodes' = [nodes EXCEPT ![o].m = obs]
     /\ canon' = IF ok THEN PutAt(canon, obs.slot, obs.acc) ELSE canon
     /\ UNCHANGED <<w, snaps, hashes>>

LeafMap(seq)  == FnOf(seq, LAMBDA x : x.key, LAMBDA x : [a |-> x.a, amt |-> x.amt])
ProofMap(seq) == FnOf(seq, LAMBDA x : x.key, LAMBDA x : x.p)

(* Everything the tree of a state consists of.                             *)
CheckTree(n, vals, feeAddr, fees) ==
  LET lv     == Leaves(vals, feeAddr, fees)
      root   == TreeRoot(lv)
      leafs  == LeafMap(Line.leafs)
      proofs == ProofMap(Line.proofs)
  IN /\ Check("P14", n, [k \in DOMAIN Line.order |-> [a |-> Line.order[k].a, amt |-> Line.order[k].amt]] = lv,
              <<"leaves", lv, "observed", Line.order>>)
     /\ Check("P14", n, Line.out = "ok", <<"freezing failed", Line.msg>>)
     /\ Check("P14", n, Line.enough = HasTree(lv), <<"a root with too few leaves, or none", Len(lv), Line.enough>>)
     /\ (HasTree(lv) /\ Line.enough) =>
          /\ Check("P14", n, Line.root = root, <<"root", root, "observed", Line.root>>)
          /\ Check("P14", n, DOMAIN leafs = {lv[k].a : k \in DOMAIN lv} /\ DOMAIN proofs = DOMAIN leafs
                             /\ Len(Line.leafs) = Cardinality(DOMAIN leafs) /\ Len(Line.proofs) = Len(Line.leafs),
                   <<"one leaf and one proof per address", DOMAIN leafs, DOMAIN proofs>>)
          /\ \A k \in DOMAIN lv : lv[k].a \in DOMAIN leafs /\ lv[k].a \in DOMAIN proofs =>
               /\ Check("P14", n, leafs[lv[k].a] = lv[k], <<"stored leaf", lv[k], leafs[lv[k].a]>>)
               /\ Check("P14", n, Verifies(leafs[lv[k].a], proofs[lv[k].a], Line.root), <<"proof does not verify", lv[k], proofs[lv[k].a]>>)

FreezeLine ==
  LET o    == Line.o
      old  == nodes[o].m
      obs  == MemOf(Line.m)
      s    == old.slot
      has  == s \in DOMAIN obs.com
      snap == IF has THEN obs.com[s] ELSE <<"none", "">>
      vals == FnOf(Line.vals, LAMBDA v : v.id, LAMBDA v : v)
  IN /\ Line.ev = "freeze"
     /\ CheckTree(l, vals, w.feeAddr, Line.fees)
     /\ Line.enough => Check("P15", l, has /\ Line.fdig = Line.vdig, <<"the snapshot is not the state of its slot", s>>)
     /\ Check("P15", l, obs = (IF Line.enough /\ has THEN Freeze(old, snap) ELSE old), <<"freezing", s, old, "observed", obs>>)
     /\ s \in DOMAIN snaps => /\ Check("P11", l, snaps[s] = snap, <<"another oracle froze something else at", s>>)
                              /\ Check("P15", l, snaps[s] = snap, <<"another oracle froze something else at", s>>)
                              /\ nodes[o].loaded => Check("P17", l, snaps[s] = snap, <<"another snapshot after a restart", s>>)
     /\ Check("P15", l, Line.latOk = HasLatest(obs) /\ (HasLatest(obs) => Line.lat = LatestOf(obs) /\ Line.latSt = LatestOf(obs)),
              <<"latest committed state", Line.latOk, Line.lat, Line.latSt, DOMAIN obs.com>>)
     /\ Check("P15", l, DOMAIN obs.com = SnapsUpTo(s) \cup (IF has THEN {s} ELSE {}), <<"set of snapshots", DOMAIN obs.com, SnapsUpTo(s)>>)
     /\ nodes' = [nodes EXCEPT ![o].m = obs]
     /\ snaps' = PutAt(snaps, s, snap)
     /\ UNCHANGED <<w, canon, hashes>>

(* A state made up by the driver, frozen.                                  *)
TreeLine ==
  LET vals == FnOf(Line.vals, LAMBDA v : v.id, LAMBDA v : v)
      key  == <<"tree", Line.slot>>
      obs  == MemOf(Line.m)
  IN /\ Line.ev = "tree"
     /\ CheckTree(l, vals, w.feeAddr, Line.fees)
     /\ Check("P15", l, Line.fdig = (IF Line.enough THEN Line.vdig ELSE ""), <<"the snapshot is not the state of its slot", Line.slot>>)
     /\ Check("P15", l, DOMAIN obs.com = IF Line.enough THEN {Line.slot} ELSE {}, <<"snapshots", DOMAIN obs.com>>)
     /\ key \in DOMAIN snaps => Check("P11", l, snaps[key] = Line.m.com, <<"two snapshots of one state", snaps[key], Line.m.com>>)
     /\ snaps' = PutAt(snaps, key, Line.m.com)
     /\ UNCHANGED <<w, nodes, canon, hashes>>

HashOk(n, m, h) ==
  LET k == [acc |-> m.acc, com |-> m.com] IN
  /\ \A x \in hashes : /\ Check("P11", n, x.k = k => x.h = h, <<"two hashes of one state", m.slot, h, x.h>>)
                       /\ Check("P16", n, x.h = h => x.k = k, <<"one hash of two states", h>>)

SaveLine ==
  LET o   == Line.o
      old == nodes[o].m
      obs == MemOf(Line.m)
  IN /\ Line.ev = "save"
     /\ Check("P16", l, Line.out = "ok", <<"saving failed", Line.msg>>)
     /\ Check("P16", l, obs = old, <<"saving changed the state", old, obs>>)
     /\ LET d  == Save(nodes[o].disk, old, Line.slotToo)
            nm == {IF k = 0 THEN "state.json" ELSE "state_" \o ToString(k) \o ".json" : k \in DOMAIN d}
        IN /\ Check("P16", l, nm \subseteq SeqToSet(Line.files), <<"files", nm, Line.files>>)
           /\ nodes' = [nodes EXCEPT ![o].disk = d]
     /\ HashOk(l, old, Line.hash)
     /\ hashes' = hashes \cup {[k |-> [acc |-> old.acc, com |-> old.com], h |-> Line.hash]}
     /\ UNCHANGED <<w, canon, snaps>>

HashLine ==
  LET o   == Line.o
      old == nodes[o].m
  IN /\ Line.ev = "hash"
     /\ Check("P11", l, Line.out = "ok" /\ MemOf(Line.m) = old, <<"hashing changed the state", Line.msg>>)
     /\ HashOk(l, old, Line.hash)
     /\ hashes' = hashes \cup {[k |-> [acc |-> old.acc, com |-> old.com], h |-> Line.hash]}
     /\ UNCHANGED <<w, nodes, canon, snaps>>

TamperLine ==
  /\ Line.ev = "tamper"
  /\ nodes' = [nodes EXCEPT ![Line.o].disk =
        IF Line.what = "deleted" THEN [k \in DOMAIN @ \ {Line.file} |-> @[k]]
        ELSE PutAt(@, Line.file, [ok |-> "no", m |-> nodes[Line.o].m])]
  /\ UNCHANGED <<w, canon, snaps, hashes>>

LoadLine ==
  LET o   == Line.o
      n   == nodes[o]
      obs == MemOf(Line.m)
      exp == CASE Line.how = "json"  -> Load(w, n.disk, 0, n.m)
               [] Line.how = "file"  -> Load(w, n.disk, Line.file, n.m)
               [] Line.how = "bytes" -> Load(w, nodes[Line.from].disk, Line.file, n.m)
               [] Line.how = "given" -> LoadGiven(w, n.disk, Line.file, n.m)
      pid == IF Line.how = "given" THEN "P17" ELSE "P16"
      \* the fee decides: the rest of the file is fine
      src == IF Line.how = "bytes" THEN nodes[Line.from].disk ELSE n.disk
      feeCase == \E k \in DOMAIN src : src[k].ok = "yes" /\ src[k].m.fee # n.m.fee
      done == Line.out = "ok" /\ Line.found
  IN /\ Line.ev = "load"
     /\ IF exp.res = "loaded"
        THEN /\ Check(pid, l, done, <<"a good state was not loaded", Line.how, Line.file, Line.out, Line.msg>>)
             /\ feeCase => Check("P13", l, done, <<"a good state was not loaded", Line.how, Line.file, Line.out, Line.msg>>)
             /\ done => /\ Check(pid, l, obs = exp.m, <<"loaded", exp.m, "observed", obs>>)
                        /\ Both("P16", "P17", l, obs = exp.m, <<"loaded", exp.m, "observed", obs>>)
                        /\ Check("P13", l, Line.m.cfgFee = exp.m.fee, <<"fee after loading", exp.m.fee, Line.m.cfgFee>>)
        ELSE /\ Check(pid, l, ~done, <<"a state was loaded that must not be", exp.res, Line.how, Line.file>>)
             /\ exp.res = "refused" => Check("P16", l, ~done, <<"a bad state was accepted", Line.how, Line.file>>)
             /\ exp.res = "refused" => Check(pid, l, Line.out # "ok", <<"refusal without an error", Line.how, Line.file>>)
             /\ Check("P16", l, ~done => obs = n.m /\ Line.m.cfgFee = obs.fee, <<"a failed load changed the oracle", n.m, obs, Line.m.cfgFee>>)
     /\ Agrees(l, o, obs, TRUE)
     /\ nodes' = [nodes EXCEPT ![o] = [@ EXCEPT !.m = obs, !.loaded = @ \/ done]]
     /\ UNCHANGED <<w, canon, snaps, hashes>>

TInit == /\ l = 1 /\ w = [net |-> ""] /\ nodes = NoFn /\ canon = NoFn /\ snaps = NoFn /\ hashes = {}
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ WorldLine \/ StartLine \/ BlockLine \/ FreezeLine \/ TreeLine \/ SaveLine \/ HashLine \/ TamperLine \/ LoadLine
TSpec == TInit /\ [][TNext]_tvars
Accepted == Assert(TLCGet("stats").diameter - 1 = Len(Trace), <<"trace not consumed", TLCGet("stats").diameter>>)
=============================================================================
