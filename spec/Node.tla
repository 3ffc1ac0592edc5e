-------------------------------- MODULE Node --------------------------------
(***************************************************************************)
(* One oracle process: its memory, the checkpoints it froze, the state     *)
(* files on its disk, and what stopping, starting, loading and rolling     *)
(* back do to them (oracle.go: FreezeCheckpoint, SaveToJson, Load*;        *)
(* main.go).                                                               *)
(*                                                                         *)
(* World w: [net, deploy, ckpt, fee0].  The accounting itself is Pool.tla; *)
(* here a memory m is                                                      *)
(*    slot  latest processed slot      acc  its accounting (a fingerprint) *)
(*    com   slot -> frozen snapshot    fee  pool fee in force              *)
(* A disk is a function key -> file, key 0 = state.json, key s =           *)
(* state_<s>.json;  a file is [ok, m]: ok = "no" when its content does not *)
(* belong to its hash or to this deployment.                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, Chain

PutAt(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
NoSnapshots == [s \in {} |-> ""]
NoFiles     == [s \in {} |-> ""]

Due(w, slot) == slot >= w.deploy /\ (slot - w.deploy) % w.ckpt = 0

FreshMem(w, acc) == [slot |-> w.deploy - 1, acc |-> acc, com |-> NoSnapshots, fee |-> w.fee0]

Freeze(m, snap) == [m EXCEPT !.com = PutAt(@, m.slot, snap)]

HasLatest(m) == DOMAIN m.com # {}
LatestOf(m)  == CHOOSE s \in DOMAIN m.com : \A t \in DOMAIN m.com : t <= s

Save(disk, m, slotToo) ==
  LET f  == [ok |-> "yes", m |-> m]
      d1 == PutAt(disk, 0, f)
  IN IF slotToo THEN PutAt(d1, m.slot, f) ELSE d1

(* A state is only accepted with a fee that its slot can have.             *)
FeeFits(w, m) == m.fee = w.fee0 \/ m.fee = FeeAt(w.net, w.fee0, m.slot)
Loadable(w, f) == f.ok = "yes" /\ FeeFits(w, f.m)

(* Loading one file: [res, m], res in {"loaded", "absent", "refused"}.     *)
Load(w, disk, key, m) ==
  IF key \notin DOMAIN disk        THEN [res |-> "absent",  m |-> m]
  ELSE IF Loadable(w, disk[key])   THEN [res |-> "loaded",  m |-> disk[key].m]
  ELSE                                  [res |-> "refused", m |-> m]

(* The contract is at slot s: the state of s, or of one of the two         *)
(* checkpoints before it; never a newer one.  A damaged first choice is    *)
(* refused, damaged older ones are passed over.                            *)
Back(w, s, i) == IF s >= i * w.ckpt THEN {s - i * w.ckpt} ELSE {}
LoadGiven(w, disk0, s, m) ==
  LET disk  == [k \in DOMAIN disk0 \ {0} |-> disk0[k]]      \* not state.json
      first == Load(w, disk, s, m)
      older == {k \in Back(w, s, 1) \cup Back(w, s, 2) : Load(w, disk, k, m).res = "loaded"}
  IN IF first.res # "absent" THEN first
     ELSE IF older # {} THEN Load(w, disk, CHOOSE k \in older : \A j \in older : j <= k, m)
     ELSE [res |-> "absent", m |-> m]
=============================================================================
