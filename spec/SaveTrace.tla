----------------------------- MODULE SaveTrace -----------------------------
(* Saves of the real oracle that were interrupted, or refused by the disk, *)
(* at every file system call, and what a new process found afterwards.     *)
EXTENDS TraceBase, Save

VARIABLES l
Line == Trace[l]
Files(seq) == FnOf(seq, LAMBDA x : x.name, LAMBDA x : x.id)
Sizes(seq) == FnOf(seq, LAMBDA x : x.name, LAMBDA x : x.size)
V(holds, why) == Check("P18", l, holds, <<why, Line.fault, Line.out, Line.msg>>)

(* what the new process must get from a file with this content             *)
LoadOk(x, content, old, oldDig) ==
  CASE content = "absent"  -> x.out = "ok" /\ ~x.found
    [] content = Line.new  -> x.out = "ok" /\ x.found /\ x.dig = Line.mem0
    [] content = old       -> x.out = "ok" /\ x.found /\ x.dig = oldDig
    [] OTHER               -> FALSE

SaveLine ==
  LET before == Files(Line.before)
      after  == Files(Line.after)
      tg     == Targets(Line.slot, Line.both)
      sf     == SlotFile(Line.slot)
      fs0    == FsOf(before)
      end    == DoAll(fs0, Line.ops, Len(Line.ops))
  IN /\ Line.ev = "save"
     /\ V(Line.out \notin {"hang", "panic", "fatal"}, "saving hung or died")
     /\ Line.fault.kind = "none" => V(Line.out = "ok", "a save without faults failed")
     /\ Line.out = "ok" => V(Done(after, tg, Line.new), <<"success reported, but the files are", after>>)
     /\ \A f \in tg : V(Complete(before, after, f, Line.new), <<"neither the previous nor the new state", f, after>>)
     /\ V(Kept(before, after, tg), <<"other files changed", before, after>>)
     /\ V(LoadOk(Line.load, Get(after, StateFile), Get(before, StateFile), Line.oldDig), <<"loading afterwards", Line.load>>)
     /\ Line.both => V(LoadOk(Line.loadS, Get(after, sf), Get(before, sf), Line.oldS), <<"loading the checkpoint afterwards", Line.loadS>>)
     /\ Line.out \in {"ok", "err"} => V(Line.mem1 = Line.mem0, "saving changed the memory")
     /\ V(Line.again = "ok", <<"saving again failed", Line.again>>)
     /\ Line.again = "ok" => V(Get(Files(Line.againF), StateFile) = Line.againN /\ (Line.out \in {"ok", "err"} => Line.againN = Line.new),
                               "saving again wrote something else")
     \* all moments in between, on the model of the file system
     /\ Line.out = "ok" => V(Moments(fs0, Line.ops, tg, before, Line.size), <<"a moment of the save leaves an incomplete file", Line.ops>>)
     /\ \A f \in tg : LET c == Content(end, f) IN
          IF (c.base \in {"old", "absent"} /\ Get(after, f) = c.id) \/ (c.base = "new" /\ f \in DOMAIN after /\ Sizes(Line.after)[f] = c.n)
          THEN TRUE ELSE PrintT("NOTE|the file system model differs|" \o ToString(l))

Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ SaveLine
Spec == Init /\ [][Next]_l
Accepted == Assert(TLCGet("stats").diameter - 1 = Len(Trace), <<"trace not consumed", TLCGet("stats").diameter>>)
=============================================================================
