-------------------------------- MODULE Save --------------------------------
(* Saving the state: what a user may find in the state folder afterwards,  *)
(* and a small file system on which the calls of a save are replayed to    *)
(* look at every moment in between.                                        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

StateFile == "state.json"
SlotFile(slot) == "state_" \o ToString(slot) \o ".json"
Targets(slot, both) == {StateFile} \cup (IF both THEN {SlotFile(slot)} ELSE {})

(* ---- the guarantee --------------------------------------------------- *)
(* before, after : file name -> content.  An interrupted or refused save   *)
(* leaves each of its files complete: the previous one or the new one.     *)
Get(files, f) == IF f \in DOMAIN files THEN files[f] ELSE "absent"
Complete(before, after, f, new) == Get(after, f) \in {Get(before, f), new}
Kept(before, after, targets) == \A f \in DOMAIN before : f \notin targets => Get(after, f) = before[f]
Done(after, targets, new) == \A f \in targets : Get(after, f) = new

(* ---- the file system -------------------------------------------------- *)
(* A content is [base, n]: base "old" for a file as it was, "new" for one  *)
(* that holds the first n bytes of the new content, "mixed" otherwise.     *)
Old(id)   == [base |-> "old", id |-> id, n |-> 0]
New(k)    == [base |-> "new", id |-> "", n |-> k]
Mixed     == [base |-> "mixed", id |-> "", n |-> 0]

(* fs = [dir |-> name -> inode, ino |-> inode -> content, fds |-> fd -> inode, next |-> inode] *)
FsOf(before) ==
  LET names == DOMAIN before
      num   == CHOOSE f \in [names -> 1..Cardinality(names)] : \A a, b \in names : a # b => f[a] # f[b]
  IN [dir |-> num, ino |-> [k \in {num[a] : a \in names} |-> Old(before[CHOOSE a \in names : num[a] = k])],
      fds |-> [k \in {} |-> 0], next |-> Cardinality(names) + 1]

Set(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k)    == [x \in DOMAIN f \ {k} |-> f[x]]

Written(c, k, app) == IF c.base = "new" THEN New(c.n + k) ELSE IF k = 0 THEN c ELSE Mixed

Do(fs, o) ==
  CASE o.op = "open" ->
         IF o.name \in DOMAIN fs.dir
         THEN LET i == fs.dir[o.name]
              IN [fs EXCEPT !.fds = Set(@, o.fd, i), !.ino = IF o.trunc THEN Set(@, i, New(0)) ELSE @]
         ELSE IF o.creat
              THEN [fs EXCEPT !.dir = Set(@, o.name, fs.next), !.ino = Set(@, fs.next, New(0)),
                              !.fds = Set(@, o.fd, fs.next), !.next = @ + 1]
              ELSE fs
    [] o.op = "write" ->
         IF o.fd \in DOMAIN fs.fds THEN [fs EXCEPT !.ino = Set(@, fs.fds[o.fd], Written(fs.ino[fs.fds[o.fd]], o.n, FALSE))] ELSE fs
    [] o.op = "ftruncate" ->
         IF o.fd \in DOMAIN fs.fds THEN [fs EXCEPT !.ino = Set(@, fs.fds[o.fd], IF o.n = 0 THEN New(0) ELSE Mixed)] ELSE fs
    [] o.op = "truncate" ->
         IF o.name \in DOMAIN fs.dir THEN [fs EXCEPT !.ino = Set(@, fs.dir[o.name], IF o.n = 0 THEN New(0) ELSE Mixed)] ELSE fs
    [] o.op = "close" -> [fs EXCEPT !.fds = Del(@, o.fd)]
    [] o.op = "rename" ->
         IF o.name \in DOMAIN fs.dir THEN [fs EXCEPT !.dir = Set(Del(@, o.name), o.name2, fs.dir[o.name])] ELSE fs
    [] o.op = "link" ->
         IF o.name \in DOMAIN fs.dir THEN [fs EXCEPT !.dir = Set(@, o.name2, fs.dir[o.name])] ELSE fs
    [] o.op = "unlink" -> [fs EXCEPT !.dir = Del(@, o.name)]
    [] OTHER -> fs

RECURSIVE DoAll(_, _, _)
DoAll(fs, ops, k) == IF k = 0 THEN fs ELSE Do(DoAll(fs, ops, k - 1), ops[k])

Content(fs, f) == IF f \in DOMAIN fs.dir THEN fs.ino[fs.dir[f]] ELSE [base |-> "absent", id |-> "absent", n |-> 0]
Whole(c, old, size) == IF c.base = "new" THEN c.n = size ELSE c.base \in {"old", "absent"} /\ c.id = old

(* Every moment of a save: before each call, and with each part of a write.*)
(* A write of k bytes passes through all sizes in between; the least and   *)
(* the greatest but complete one decide.                                   *)
Moments(fs0, ops, targets, before, size) ==
  \A k \in 0..Len(ops) :
    LET fs == DoAll(fs0, ops, k) IN
    /\ \A f \in targets : Whole(Content(fs, f), Get(before, f), size)
    /\ (k < Len(ops) /\ ops[k + 1].op = "write" /\ ops[k + 1].n > 1) =>
         \A part \in {1, ops[k + 1].n - 1} :
           LET fp == Do(fs, [ops[k + 1] EXCEPT !.n = part])
           IN \A f \in targets : Whole(Content(fp, f), Get(before, f), size)
=============================================================================
