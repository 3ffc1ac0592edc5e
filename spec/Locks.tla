-------------------------------- MODULE Locks -------------------------------
(***************************************************************************)
(* The locks of the oracle (P23).  Programs are the orders in which the    *)
(* operations of the real code took and released the locks of the program, *)
(* as recorded; TLC runs any Threads of them together in every             *)
(* interleaving.  Readers-writer locks are those of Go: a writer that      *)
(* waits keeps new readers out, even those that already read.              *)
(***************************************************************************)
EXTENDS TraceBase

CONSTANT Threads

Programs == Trace[Len(Trace)].progs
T == 1..Threads
Names == UNION {{Programs[p].ops[k].lk : k \in DOMAIN Programs[p].ops} : p \in DOMAIN Programs}

VARIABLES prog,     \* thread -> program
          pc,       \* thread -> steps done
          writer,   \* lock -> thread, or 0
          readers,  \* lock -> thread -> times
          queued    \* lock -> writers that wait
vars == <<prog, pc, writer, readers, queued>>

Ops(t) == Programs[prog[t]].ops
Over(t) == pc[t] = Len(Ops(t))
Now(t) == Ops(t)[pc[t] + 1]
Step(t) == pc' = [pc EXCEPT ![t] = @ + 1]

Init == /\ prog \in {f \in [T -> DOMAIN Programs] : \A i, j \in T : i < j => f[i] <= f[j]}
        /\ pc = [t \in T |-> 0]
        /\ writer = [k \in Names |-> 0]
        /\ readers = [k \in Names |-> [t \in T |-> 0]]
        /\ queued = [k \in Names |-> {}]

NoReader(k) == \A t \in T : readers[k][t] = 0

Queue(t) == \* a writer that cannot have the lock waits in it
  /\ ~Over(t) /\ Now(t).op = "lock"
  /\ LET k == Now(t).lk IN
     /\ t \notin queued[k] /\ ~(writer[k] = 0 /\ NoReader(k))
     /\ queued' = [queued EXCEPT ![k] = @ \cup {t}]
  /\ UNCHANGED <<prog, pc, writer, readers>>
Lock(t) ==
  /\ ~Over(t) /\ Now(t).op = "lock"
  /\ LET k == Now(t).lk IN
     /\ writer[k] = 0 /\ NoReader(k)
     /\ writer' = [writer EXCEPT ![k] = t]
     /\ queued' = [queued EXCEPT ![k] = @ \ {t}]
  /\ Step(t) /\ UNCHANGED <<prog, readers>>
RLock(t) ==
  /\ ~Over(t) /\ Now(t).op = "rlock"
  /\ LET k == Now(t).lk IN
     /\ writer[k] = 0 /\ queued[k] = {}
     /\ readers' = [readers EXCEPT ![k][t] = @ + 1]
  /\ Step(t) /\ UNCHANGED <<prog, writer, queued>>
Unlock(t) ==
  /\ ~Over(t) /\ Now(t).op = "unlock"
  /\ writer' = [writer EXCEPT ![Now(t).lk] = 0]
  /\ Step(t) /\ UNCHANGED <<prog, readers, queued>>
RUnlock(t) ==
  /\ ~Over(t) /\ Now(t).op = "runlock"
  /\ readers' = [readers EXCEPT ![Now(t).lk][t] = @ - 1]
  /\ Step(t) /\ UNCHANGED <<prog, writer, queued>>

Go(t) == Queue(t) \/ Lock(t) \/ RLock(t) \/ Unlock(t) \/ RUnlock(t)
Next == \E t \in T : Go(t)
Spec == Init /\ [][Next]_vars

(* The properties.                                                         *)
Stuck == (\E t \in T : ~Over(t)) /\ ~ENABLED Next
Story == [t \in T |-> <<Programs[prog[t]].name, pc[t], Len(Ops(t))>>]
NoDeadlock == Stuck => Check("P23", Len(Trace), FALSE, <<"these can block each other for ever", Story>>)
Released == \A t \in T : Over(t) =>
              \A k \in Names : Check("P23", Len(Trace), writer[k] # t /\ readers[k][t] = 0, <<"a lock is never released", k, Programs[prog[t]].name>>)
Exclusion == \A k \in Names : Check("P23", Len(Trace), writer[k] = 0 \/ NoReader(k), <<"two hold the lock", k, Story>>)
=============================================================================
