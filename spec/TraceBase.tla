----------------------------- MODULE TraceBase -----------------------------
(* Shared by the trace specifications: the trace file, the cursor, and the *)
(* way a broken property is reported.                                      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

TraceFile == IOEnv.TRACE
Trace == ndJsonDeserialize(TraceFile)

(* Always TRUE; prints one line for the runner when the predicate is FALSE.*)
Check(pid, line, holds, why) ==
  IF holds THEN TRUE
  ELSE PrintT("VIOL|" \o pid \o "|" \o ToString(line) \o "|" \o ToString(why))

(* A listed finding was met.                                               *)
Known(pid, id, line) == PrintT("KNOWN|" \o pid \o "|" \o ToString(line) \o "|" \o id)

FnOf(seq, key(_), val(_)) ==
  [k \in {key(seq[i]) : i \in DOMAIN seq} |->
     val(seq[CHOOSE i \in DOMAIN seq : key(seq[i]) = k])]

SeqToSet(s) == {s[i] : i \in DOMAIN s}
=============================================================================
