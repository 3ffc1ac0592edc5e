------------------------------- MODULE Submit ------------------------------
(***************************************************************************)
(* Many oracles and the contract (P19), every interleaving: each oracle    *)
(* is a life of Main.tla, with the same guards that MainTrace demands of   *)
(* the program, and a disk of Node.tla; it can be killed or stopped at     *)
(* any moment, its transaction may still be mined then, and it starts      *)
(* again on the files it left.  Fewer liars than the quorum report wrong   *)
(* roots whenever they like.                                               *)
(*                                                                         *)
(* What TLC proves here about the protocol is bound to the program by      *)
(* MainTrace: a program that only does what these guards allow has it.     *)
(***************************************************************************)
EXTENDS Main

CONSTANTS Honest, Liars, Quorum, MaxSlot, Ckpt, Deploy, Crashes

W == [net |-> "none", deploy |-> Deploy, ckpt |-> Ckpt, fee0 |-> 7]

\* what is right for a slot: its accounting and the root of its checkpoint
Acc(s)   == ToString(s)
Right(s) == ToString(s)
Wrong(s) == "x" \o ToString(s)
Fresh == FreshMem(W, Acc(Deploy - 1))

VARIABLES life, disk, pending, last, root, voted, votes, chain, crashes
vars == <<life, disk, pending, last, root, voted, votes, chain, crashes>>

Alive(o) == life[o].phase = "loop"
Dead == [NoLife EXCEPT !.mem = Fresh] @@ [saved |-> FALSE, mem0 |-> Fresh]

Init ==
  /\ life = [o \in Honest |-> Dead]
  /\ disk = [o \in Honest |-> NoFiles]
  /\ pending = {}
  /\ last = Deploy - Ckpt /\ root = ""
  /\ voted = [m \in Honest \cup Liars |-> <<0, "">>]        \* slot and root of the last vote
  /\ votes = [r \in {} |-> 0]                             \* reports that are not consolidated
  /\ chain = <<>>
  /\ crashes = 0

(* The contract (fake/pool.go): one counted vote per member and slot.      *)
Count(f, r) == IF r \in DOMAIN f THEN f[r] ELSE 0
Accept(m, s, r) ==
  IF last + Ckpt # s THEN UNCHANGED <<last, root, voted, votes, chain>>
  ELSE LET old == voted[m]
           v1  == IF old[1] = s /\ Count(votes, old) > 0 THEN PutAt(votes, old, votes[old] - 1) ELSE votes
           n   == Count(v1, <<s, r>>) + 1
       IN IF n = Quorum
          THEN /\ last' = s /\ root' = r
               /\ votes' = [x \in DOMAIN v1 \ {<<s, r>>} |-> v1[x]]
               /\ chain' = Append(chain, <<s, r>>)
               /\ UNCHANGED voted
          ELSE /\ votes' = PutAt(v1, <<s, r>>, n)
               /\ voted' = [voted EXCEPT ![m] = <<s, r>>]
               /\ UNCHANGED <<last, root, chain>>
\* what the contract says this member voted for: nothing once it is consolidated
VotedOf(m) == IF voted[m] \in DOMAIN votes THEN voted[m][1] ELSE 0

Env == <<last, root, voted, votes, chain>>

(* --- an oracle --------------------------------------------------------- *)
\* not yet frozen, or frozen and dealt with
Leaves(o) ==
  LET p == life[o] IN
  IF ~Due(W, p.at) THEN TRUE ELSE p.at \in DOMAIN p.mem.com /\ (p.saved \/ (p.first /\ p.at \in DOMAIN p.mem0.com))

Process(o) ==
  LET p == life[o] IN
  /\ Alive(o) /\ Leaves(o) /\ p.at < MaxSlot
  /\ life' = [life EXCEPT ![o] = [p EXCEPT !.at = @ + 1, !.mem.slot = @ + 1, !.mem.acc = Acc(p.at + 1), !.first = FALSE, !.saved = FALSE,
                                  !.last = None, !.voted = None, !.root = "", !.sent = FALSE, !.waits = FALSE, !.txbad = FALSE]]
  /\ UNCHANGED <<disk, pending, crashes, Env>>

DoFreeze(o) ==
  LET p == life[o] IN
  /\ Alive(o) /\ Due(W, p.at) /\ p.at \notin DOMAIN p.mem.com
  /\ life' = [life EXCEPT ![o].mem = Freeze(p.mem, Right(p.at))]
  /\ UNCHANGED <<disk, pending, crashes, Env>>

Asks(o) == /\ Alive(o) /\ Due(W, life[o].at) /\ life[o].at \in DOMAIN life[o].mem.com /\ ~Leaves(o)
           /\ UNCHANGED <<disk, pending, crashes, Env>>

ReadVoted(o) == Asks(o) /\ life' = [life EXCEPT ![o].voted = VotedOf(o)]
ReadLast(o)  == Asks(o) /\ life' = [life EXCEPT ![o].last = last]
ReadRoot(o)  == Asks(o) /\ life' = [life EXCEPT ![o].root = root]

Send(o) ==
  LET p == life[o]
      r == p.mem.com[p.at]
  IN /\ Alive(o) /\ p.at \in DOMAIN p.mem.com /\ ~Leaves(o)
     /\ MaySubmit(W, p, p.at, r)
     /\ pending' = pending \cup {[who |-> o, slot |-> p.at, root |-> r]}
     /\ life' = [life EXCEPT ![o].sent = TRUE, ![o].waits = TRUE]
     /\ UNCHANGED <<disk, crashes, Env>>

\* a transaction is mined; the sender learns of a revert and stops
Mine(x) ==
  /\ x \in pending
  /\ pending' = pending \ {x}
  /\ Accept(x.who, x.slot, x.root)
  /\ life' = IF last + Ckpt # x.slot /\ Alive(x.who) /\ life[x.who].sent /\ life[x.who].at = x.slot
             THEN [life EXCEPT ![x.who] = Dead] ELSE life
  /\ UNCHANGED <<disk, crashes>>

SaveState(o) ==
  LET p == life[o] IN
  /\ Alive(o) /\ Due(W, p.at) /\ p.at \in DOMAIN p.mem.com /\ ~Leaves(o)
  /\ MayGoOn(W, p, p.at, p.mem.com[p.at])
  /\ ~\E x \in pending : x.who = o /\ x.slot = p.at /\ p.sent    \* it waits for its transaction first
  /\ disk' = [disk EXCEPT ![o] = Save(@, p.mem, TRUE)]
  /\ life' = [life EXCEPT ![o].saved = TRUE]
  /\ UNCHANGED <<pending, crashes, Env>>

Kill(o) ==
  /\ life[o].phase # "off" /\ crashes < Crashes
  /\ crashes' = crashes + 1
  /\ life' = [life EXCEPT ![o] = Dead]
  /\ UNCHANGED <<disk, pending, Env>>

Term(o) ==                                     \* stopped: saves what it has
  /\ Alive(o) /\ crashes < Crashes
  /\ crashes' = crashes + 1
  /\ disk' = [disk EXCEPT ![o] = Save(@, life[o].mem, FALSE)]
  /\ life' = [life EXCEPT ![o] = Dead]
  /\ UNCHANGED <<pending, Env>>

Start(o) ==
  LET ld == AfterContract(W, disk[o], FALSE, AtStart(W, disk[o], Fresh, "none", Fresh), last)
  IN /\ life[o].phase = "off"
     /\ IF ld.res = "refused"                  \* the operator clears the folder
        THEN disk' = [disk EXCEPT ![o] = NoFiles] /\ UNCHANGED life
        ELSE /\ life' = [life EXCEPT ![o] = [Dead EXCEPT !.phase = "loop", !.mem = ld.m, !.mem0 = ld.m, !.at = ld.m.slot]]
             /\ UNCHANGED disk
     /\ UNCHANGED <<pending, crashes, Env>>

Lie(m) ==
  /\ voted[m] # <<last + Ckpt, Wrong(last + Ckpt)>>
  /\ last + Ckpt <= MaxSlot
  /\ Accept(m, last + Ckpt, Wrong(last + Ckpt))
  /\ UNCHANGED <<life, disk, pending, crashes>>

Next ==
  \/ \E o \in Honest : \/ Process(o) \/ DoFreeze(o) \/ ReadVoted(o) \/ ReadLast(o) \/ ReadRoot(o)
                       \/ Send(o) \/ SaveState(o) \/ Kill(o) \/ Term(o) \/ Start(o)
  \/ \E x \in pending : Mine(x)
  \/ \E m \in Liars : Lie(m)
Spec == Init /\ [][Next]_vars

(* --- P19 --------------------------------------------------------------- *)
\* consolidated checkpoints are consecutive, none skipped or repeated, and the right ones
Consolidated == \A k \in DOMAIN chain : chain[k] = <<Deploy + (k - 1) * Ckpt, Right(Deploy + (k - 1) * Ckpt)>>
\* one vote of a member is counted for a slot
OneVote ==
  \A s \in {x[1] : x \in DOMAIN votes} \ 0..last :
    LET n[rs \in SUBSET {x \in DOMAIN votes : x[1] = s}] == IF rs = {} THEN 0 ELSE LET x == CHOOSE x \in rs : TRUE IN votes[x] + n[rs \ {x}]
    IN n[{x \in DOMAIN votes : x[1] = s}] <= Cardinality({m \in Honest \cup Liars : voted[m][1] = s})
\* a file of a checkpoint is only there if the contract consolidated it, or no longer expected it
SavedIsDue == \A o \in Honest : \A s \in DOMAIN disk[o] \ {0} : s <= last
\* what an oracle holds is the truth
Honesty == \A o \in Honest : \A s \in DOMAIN life[o].mem.com : life[o].mem.com[s] = Right(s)
\* an oracle that runs is at most one checkpoint ahead of the contract
NotAhead == \A o \in Honest : life[o].phase = "loop" => life[o].at <= last + 2 * Ckpt - 1

(* Progress: while nobody lies, the contract gets every checkpoint.        *)
Fair == /\ \A o \in Honest : /\ WF_vars(Process(o)) /\ WF_vars(DoFreeze(o)) /\ WF_vars(ReadVoted(o)) /\ WF_vars(ReadLast(o)) /\ WF_vars(ReadRoot(o))
                              /\ WF_vars(Send(o)) /\ WF_vars(SaveState(o)) /\ WF_vars(Start(o))
        /\ WF_vars(\E x \in pending : Mine(x))
Live == <>(last = MaxSlot)
FairSpec == Spec /\ Fair
Inv == Consolidated /\ OneVote /\ SavedIsDue /\ Honesty /\ NotAhead
=============================================================================
