-------------------------------- MODULE Store --------------------------------
(***************************************************************************)
(* A directory in which calibration data are kept: numbered pictures and   *)
(* poses, and an index that says which belong together.                    *)
(*                                                                         *)
(* st: idx   [k |-> "absent" | "junk" | "dir" | "list" | "unsure",         *)
(*            v |-> entries [img, pose] (numbers; -1: not readable)]       *)
(*     img   number -> [k |-> "absent" | "junk" | "dir" | "ok", v]         *)
(*     pose  number -> the same                                            *)
(*     nodir the directory of pictures or poses is a file ("", "i", "p")   *)
(*     alts  lists of pairs one of which a load may return part of while   *)
(*           the index is unsure (a save failed)                           *)
(*     dirty files with smaller numbers may have been written by a save    *)
(*           that failed                                                   *)
(***************************************************************************)
EXTENDS Geom, FiniteSets
MaxFile == 8
Absent == [k |-> "absent", v |-> <<>>]
Ok(x) == [k |-> "ok", v |-> x]
Empty == [idx |-> Absent, img |-> [n \in 0..MaxFile |-> Absent], pose |-> [n \in 0..MaxFile |-> Absent], nodir |-> "", alts |-> <<>>, dirty |-> 0]
\* ---- loading: the pairs of the entries both parts of which can be read ----
Good(st, e) == e.img >= 0 /\ e.pose >= 0 /\ st.img[e.img].k = "ok" /\ st.pose[e.pose].k = "ok" /\ "i" # st.nodir /\ "p" # st.nodir
Pairs(st) == IF st.idx.k # "list" THEN <<>> ELSE
   LET g == SelectSeq(st.idx.v, LAMBDA e : Good(st, e)) IN [k \in 1..Len(g) |-> << st.img[g[k].img].v, st.pose[g[k].pose].v >>]
AllGood(st) == st.idx.k = "list" /\ \A k \in 1..Len(st.idx.v) : Good(st, st.idx.v[k])
\* ---- saving ----
CanSave(st, set) ==
  /\ st.nodir = "" /\ st.idx.k # "dir"
  /\ Len(set.images) = Len(set.poses)
  /\ \A k \in 1..Len(set.images) : set.images[k].w > 0 /\ st.img[k - 1].k # "dir" /\ st.pose[k - 1].k # "dir"
Given(set) == [k \in 1..(IF Len(set.images) < Len(set.poses) THEN Len(set.images) ELSE Len(set.poses)) |-> << set.images[k].code, set.poses[k] >>]
SavedIf(st, set, done) ==
  IF done THEN
    [st EXCEPT !.idx = [k |-> "list", v |-> [n \in 1..Len(set.images) |-> [img |-> n - 1, pose |-> n - 1]]],
               !.img = [n \in 0..MaxFile |-> IF n < Len(set.images) THEN Ok(set.images[n + 1].code) ELSE @[n]],
               !.pose = [n \in 0..MaxFile |-> IF n < Len(set.poses) THEN Ok(set.poses[n + 1]) ELSE @[n]],
               !.alts = <<>>, !.dirty = IF Len(set.images) >= @ THEN 0 ELSE @]
  \* what a save that failed left behind is unsure, but it never mixes two sets
  ELSE [st EXCEPT !.idx = [k |-> IF @.k \in {"dir", "any"} THEN @.k ELSE "unsure", v |-> <<>>], !.alts = (IF st.idx.k = "unsure" THEN st.alts ELSE <<Pairs(st)>>) \o <<Given(set)>>,
                  !.dirty = LET m == IF Len(set.images) < Len(set.poses) THEN Len(set.poses) ELSE Len(set.images) IN IF m > @ THEN m ELSE @]
Saved(st, set) == SavedIf(st, set, CanSave(st, set))
\* ---- damage ----
Damage(st, d) ==
  CASE d.part = "img" -> [st EXCEPT !.img[d.n] = [k |-> d.how, v |-> <<>>]]
    \* a pose written by hand under an index that is unsure: anything may belong together now
    [] d.part = "pose" /\ d.how = "ok" /\ st.idx.k \in {"unsure", "any"} -> [st EXCEPT !.idx = [k |-> "any", v |-> <<>>], !.pose[d.n] = Ok(d.v)]
    [] d.part = "pose" -> [st EXCEPT !.pose[d.n] = IF d.how = "ok" THEN Ok(d.v) ELSE [k |-> d.how, v |-> <<>>]]
    [] d.part = "idx" /\ d.how = "list" /\ st.dirty > 0 -> [st EXCEPT !.idx = [k |-> "any", v |-> <<>>], !.alts = <<>>]
    [] d.part = "idx" -> [st EXCEPT !.idx = [k |-> d.how, v |-> IF d.how = "list" THEN d.v ELSE <<>>], !.alts = <<>>]
    [] d.part = "dirs" -> [st EXCEPT !.nodir = d.how, !.img = IF d.how = "i" THEN [n \in 0..MaxFile |-> Absent] ELSE @, !.pose = IF d.how = "p" THEN [n \in 0..MaxFile |-> Absent] ELSE @]
\* ---- which lists of pairs a load may return ----
RECURSIVE Sub(_, _, _, _, _)
\* rows i..n of the table match columns j..m in order, some columns being left out
Sub(t, i, n, j, m) == IF i > n THEN TRUE ELSE IF j > m THEN FALSE ELSE IF t[i][j] THEN Sub(t, i + 1, n, j + 1, m) ELSE Sub(t, i, n, j + 1, m)
IsSub(a, b, Same(_, _)) == Sub(Strict([i \in 1..Len(a) |-> [j \in 1..Len(b) |-> Same(a[i], b[j])]]), 1, Len(a), 1, Len(b))
MayLoad(st, pairs, Same(_, _)) ==
  CASE st.idx.k = "list" -> LET p == Pairs(st) IN Len(p) = Len(pairs) /\ \A k \in 1..Len(p) : Same(pairs[k], p[k])
    [] st.idx.k = "unsure" -> \E i \in 1..Len(st.alts) : IsSub(pairs, st.alts[i], Same)
    [] OTHER -> st.idx.k = "any"
\* nothing to refuse: the index is as it was written and everything it names can be read
MustLoad(st) == AllGood(st)
=============================================================================
