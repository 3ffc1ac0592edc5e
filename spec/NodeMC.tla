------------------------------- MODULE NodeMC ------------------------------
(***************************************************************************)
(* Node.tla, exhaustively, for one oracle over the slots of three          *)
(* checkpoints (and a change of the fee), its folder, and the folder of    *)
(* another oracle which saved all of them: every order of advancing,       *)
(* saving, stopping, starting, loading, rolling back, losing and damaging  *)
(* files, Depth operations deep from several starts.                       *)
(*                                                                         *)
(* TLC checks P15, P16 and P17 on the specification itself and prints the  *)
(* path to each transition; the `nodereplay` driver walks them with real   *)
(* oracles and NodeTrace judges what they did.                             *)
(***************************************************************************)
EXTENDS Node, Json, TLC, TLCExt

CONSTANTS Net, Base, Fee0, Depth           \* Base: the slot of deployment, a checkpoint of its own (too small to be frozen)

VARIABLES m, disk, path
vars == <<m, disk, path>>

W == [net |-> Net, deploy |-> Base, ckpt |-> 2, fee0 |-> Fee0]
Top == Base + 5
Canon(s) == <<"acc", s>>                   \* the chain decides what the state of a slot is
Snap(s)  == <<"snap", s>>
Enough(s) == s > Base                      \* there is something to put into a tree

AtSlot(s) == [slot |-> s, acc |-> Canon(s), fee |-> FeeAt(Net, Fee0, s),
              com |-> [k \in {k \in Base..s : Due(W, k) /\ Enough(k)} |-> Snap(k)]]
File(s) == [ok |-> "yes", m |-> AtSlot(s)]
Peer == [k \in {0, Base + 2, Base + 4} |-> IF k = 0 THEN File(Base + 4) ELSE File(k)]

(* One slot, and what the main loop does at its end.                       *)
Adv(x) == LET s == x.slot + 1
              y == [x EXCEPT !.slot = s, !.acc = Canon(s), !.fee = FeeAt(Net, Fee0, s)]
          IN IF Due(W, s) /\ Enough(s) THEN Freeze(y, Snap(s)) ELSE y
RECURSIVE ToCkpt(_)
ToCkpt(x) == LET y == Adv(x) IN IF Due(W, y.slot) /\ Enough(y.slot) THEN y ELSE ToCkpt(y)
Fresh0 == FreshMem(W, Canon(Base - 1))

(* What the labels do to [m, disk].                                        *)
L(op, arg) == [op |-> op, arg |-> arg]
Alphabet ==
  <<L("adv", 0), L("ckpt", 0), L("save", 0), L("saveslot", 0), L("start", 0), L("restart", 0),
    L("given", 1), L("given", 2), L("given", 3), L("given", 4), L("given", 6), L("given", 8),
    L("file", 0), L("file", 2), L("file", 4), L("peer", 0), L("peer", 2), L("peer", 4),
    L("delete", 0), L("delete", 2), L("damage", 0), L("damage", 2), L("damage", 4)>>
Key(x) == IF x.op \in {"file", "peer", "delete", "damage"} /\ x.arg = 0 THEN 0 ELSE Base + x.arg
Can(s, x) ==
  CASE x.op = "adv"  -> s.m.slot < Top
    [] x.op = "ckpt" -> s.m.slot < Base + 4
    [] x.op \in {"file", "delete", "damage"} -> Key(x) \in DOMAIN s.disk
    [] OTHER -> TRUE
Do(s, x) ==
  CASE x.op = "adv"      -> [s EXCEPT !.m = Adv(@)]
    [] x.op = "ckpt"     -> LET y == ToCkpt(s.m) IN [m |-> y, disk |-> Save(s.disk, y, TRUE)]
    [] x.op = "save"     -> [s EXCEPT !.disk = Save(@, s.m, FALSE)]
    [] x.op = "saveslot" -> [s EXCEPT !.disk = Save(@, s.m, TRUE)]
    [] x.op = "start"    -> [s EXCEPT !.m = Fresh0]
    [] x.op = "restart"  -> [s EXCEPT !.m = Load(W, s.disk, 0, Fresh0).m]
    [] x.op = "given"    -> [s EXCEPT !.m = LoadGiven(W, s.disk, Key(x), @).m]
    [] x.op = "file"     -> [s EXCEPT !.m = Load(W, s.disk, Key(x), @).m]
    [] x.op = "peer"     -> [s EXCEPT !.m = Load(W, Peer, Key(x), @).m]
    [] x.op = "delete"   -> [s EXCEPT !.disk = [k \in DOMAIN @ \ {Key(x)} |-> @[k]]]
    [] x.op = "damage"   -> [s EXCEPT !.disk = PutAt(@, Key(x), [ok |-> "no", m |-> @[Key(x)].m])]

RECURSIVE Run(_, _)
Run(s, ks) == IF ks = <<>> THEN s ELSE Run(Do(s, Alphabet[Head(ks)]), Tail(ks))
New == [m |-> Fresh0, disk |-> NoFiles]
Starts == {<<>>, <<2, 2>>, <<2, 1, 4, 2>>}
Init == \E ks \in Starts : LET s == Run(New, ks) IN path = ks /\ m = s.m /\ disk = s.disk

(* P11 P15: whatever the history, the memory is the one of its slot.       *)
RightMem(x) == x.slot >= Base => x = AtSlot(x.slot)
(* P16: a file of the oracle that was not damaged holds what was saved.    *)
Right(s) == RightMem(s.m) /\ \A k \in DOMAIN s.disk : s.disk[k].ok = "yes" => RightMem(s.disk[k].m) /\ (k = 0 \/ s.disk[k].m.slot = k)
(* P17: a rollback to s leaves a state of s or of a checkpoint up to two   *)
(* before it, the newest there is, or everything as it was.                *)
Rolled(s, x, t) ==
  x.op = "given" =>
    LET k == Key(x)
        good == {j \in {k} \cup Back(W, k, 1) \cup Back(W, k, 2) : j # 0 /\ j \in DOMAIN s.disk /\ s.disk[j].ok = "yes"}
    IN \/ t.m = s.m
       \/ /\ t.m.slot \in good /\ \A j \in good : j <= t.m.slot
          /\ t.m.slot <= k

Next ==
  /\ TLCGet("level") <= Depth
  /\ \E k \in DOMAIN Alphabet :
       LET s == [m |-> m, disk |-> disk]
           x == Alphabet[k]
           t == Do(s, x)
       IN
       /\ Can(s, x)
       /\ Assert(Right(t) /\ Rolled(s, x, t), <<"the specification breaks a property", s, x, t>>)
       /\ PrintT("T|" \o ToJson(Append(path, k)))
       /\ m' = t.m /\ disk' = t.disk /\ path' = Append(path, k)

View == <<m, disk>>
ASSUME PrintT("A|" \o ToJson(Alphabet))
Spec == Init /\ [][Next]_vars
=============================================================================
