------------------------------ MODULE StoreGen -------------------------------
(***************************************************************************)
(* A history of a data directory: data sets are saved over each other,     *)
(* files are removed, blocked, rewritten or spoilt, and the set is loaded. *)
(***************************************************************************)
EXTENDS Store, Draws
VARIABLES sid, phase, st, steps, given
vars == <<sid, phase, st, steps, given>>
Steps(s) == D(s, 1, 2, 7)
\* now and then there is room for small files only (bytes; 0: plenty), and the set is large
Tight(s, n) == IF C(s, 800 + n, 28) THEN PickD(s, 810 + n, << "index", "pictures", "poses", "any" >>) ELSE "no"
RoomOf(s, n) == CASE Tight(s, n) = "no" -> 0 [] Tight(s, n) = "index" -> D(s, 820 + n, 190, 400) [] Tight(s, n) = "pictures" -> D(s, 820 + n, 190, 320) [] Tight(s, n) = "poses" -> D(s, 820 + n, 90, 175) [] OTHER -> D(s, 820 + n, 1, 600)
Widest(s, n) == CASE Tight(s, n) \in {"index", "poses"} -> 3 [] Tight(s, n) = "pictures" -> 14 [] OTHER -> 9
Many(s, n) == CASE Tight(s, n) = "no" -> D(s, 21 + n, 1, 5) [] Tight(s, n) = "pictures" -> D(s, 21 + n, 2, 4) [] OTHER -> D(s, 21 + n, 3, 9)
Img(s, n, k) == [code |-> (100 * n) + k, w |-> IF C(s, 40 + n, 4) /\ k = D(s, 41 + n, 1, 4) THEN 0 ELSE D(s, 100 + (20 * n) + k, 1, Widest(s, n)), h |-> D(s, 110 + (20 * n) + k, 1, Widest(s, n)), gray |-> C(s, 120 + (20 * n) + k, 20)]
DPose(s, k) == [q |-> IF C(s, k, 20) THEN DrawQ(s, k + 1) ELSE [i \in 1..4 |-> RFrac((2 * D(s, k + i, -20000, 20000)) + 1, 30000)], t |-> [i \in 1..3 |-> F(s, k + 10 + i, -999999, 999999, PickD(s, k + 14, <<3, 7, 1000, 1000000>>))]]
SetOf(s, n) == LET m == IF C(s, 20 + n, 5) THEN 0 ELSE Many(s, n)
                   p == IF C(s, 30 + n, 8) THEN D(s, 31 + n, 0, 5) ELSE m IN
   Strict([images |-> [k \in 1..m |-> Img(s, n, k)], poses |-> [k \in 1..p |-> DPose(s, 1000 + (200 * n) + (20 * k))]])
Init == sid \in 1..N /\ phase = "run" /\ st = Empty /\ steps = <<>> /\ given = <<>>
N_ == Len(steps) + 1
Kind(s, n) == IF n = 1 THEN (IF C(s, 2, 5) THEN "damage" ELSE "save") ELSE PickD(s, 2 + n, << "save", "damage", "damage", "load", "load" >>)
TextOf(x) == RDec(x)
\* pose files by hand: key order, notation and precision are free
PoseText(p, order, pre) == LET v == [qw |-> p.q[1], qx |-> p.q[2], qy |-> p.q[3], qz |-> p.q[4], x |-> p.t[1], y |-> p.t[2], z |-> p.t[3]]
                               f(k) == pre \o k \o ": " \o RDec(v[k]) \o "\n"
                           IN f(order[1]) \o f(order[2]) \o f(order[3]) \o f(order[4]) \o f(order[5]) \o f(order[6]) \o f(order[7])
Orders == << <<"x", "y", "z", "qw", "qx", "qy", "qz">>, <<"qz", "qx", "qy", "qw", "z", "x", "y">>, <<"qw", "qx", "qy", "qz", "x", "y", "z">> >>
\* one of the seven is missing or no number
SpoiltText(p, key, bad) == LET v == [qw |-> p.q[1], qx |-> p.q[2], qy |-> p.q[3], qz |-> p.q[4], x |-> p.t[1], y |-> p.t[2], z |-> p.t[3]]
                               f(k) == IF k = key THEN (IF bad = "" THEN "" ELSE k \o ": " \o bad \o "\n") ELSE k \o ": " \o RDec(v[k]) \o "\n" o == Orders[1]
                           IN f(o[1]) \o f(o[2]) \o f(o[3]) \o f(o[4]) \o f(o[5]) \o f(o[6]) \o f(o[7])
Key(s, n) == PickD(s, n, <<"x", "y", "z", "qw", "qx", "qy", "qz">>)
\* index files by hand
Ref(part, n) == IF part = "image" THEN "images/" \o ToString(n) \o ".png" ELSE "poses/" \o ToString(n) \o ".yaml"
EntryText(e) == IF e.img = -2 /\ e.pose = -2 THEN "- {}\n" ELSE
                (IF e.img = -2 THEN "" ELSE "- image: " \o (IF e.img = -3 THEN "[1, 2]" ELSE Ref("image", IF e.img = -1 THEN 77 ELSE e.img)) \o "\n")
                \o (IF e.pose = -2 THEN "" ELSE (IF e.img = -2 THEN "- " ELSE "  ") \o "pose: " \o (IF e.pose = -3 THEN "{a: 1}" ELSE Ref("pose", IF e.pose = -1 THEN 77 ELSE e.pose)) \o "\n")
RECURSIVE Joined(_)
Joined(es) == IF Len(es) = 0 THEN "" ELSE EntryText(es[1]) \o Joined(Tail(es))
DamageOf(s, n) ==
  LET f == D(s, 300 + n, 0, 5) h == D(s, 310 + n, 0, 13) p == DPose(s, 3000 + (20 * n)) IN
  CASE h \in 0..1 -> [part |-> "img", n |-> f, how |-> "absent", do |-> "remove", file |-> Ref("image", f), text |-> "", v |-> <<>>]
    [] h = 2 -> [part |-> "img", n |-> f, how |-> "junk", do |-> "write", file |-> Ref("image", f), text |-> PickD(s, 320 + n, <<"", "no picture", "PNG">>), v |-> <<>>]
    [] h = 3 -> [part |-> "img", n |-> f, how |-> "dir", do |-> "mkdir", file |-> Ref("image", f), text |-> "", v |-> <<>>]
    [] h \in 4..5 -> [part |-> "pose", n |-> f, how |-> "absent", do |-> "remove", file |-> Ref("pose", f), text |-> "", v |-> <<>>]
    [] h = 6 -> [part |-> "pose", n |-> f, how |-> "junk", do |-> "write", file |-> Ref("pose", f), text |-> PickD(s, 330 + n, << "", "[1, 2, 3, 4, 5, 6, 7]", "hello", "{x: 1, y: [", SpoiltText(p, Key(s, 340 + n), ""), SpoiltText(p, Key(s, 340 + n), ""), SpoiltText(p, Key(s, 340 + n), "one"), SpoiltText(p, Key(s, 340 + n), "[1]"), SpoiltText(p, Key(s, 340 + n), "") >>), v |-> <<>>]
    [] h = 7 -> [part |-> "pose", n |-> f, how |-> "dir", do |-> "mkdir", file |-> Ref("pose", f), text |-> "", v |-> <<>>]
    [] h = 8 -> [part |-> "pose", n |-> f, how |-> "ok", do |-> "write", file |-> Ref("pose", f), text |-> PoseText(p, PickD(s, 350 + n, Orders), ""), v |-> p]
    [] h = 9 -> [part |-> "idx", n |-> 0, how |-> "absent", do |-> "remove", file |-> "data.yaml", text |-> "", v |-> <<>>]
    [] h = 10 -> [part |-> "idx", n |-> 0, how |-> "junk", do |-> "write", file |-> "data.yaml", text |-> PickD(s, 360 + n, <<"hello", "[{image: images/0.png, pose: ", "{}", "image: images/0.png\npose: poses/0.yaml\n", "3">>), v |-> <<>>]
    [] h = 11 -> [part |-> "idx", n |-> 0, how |-> "dir", do |-> "mkdir", file |-> "data.yaml", text |-> "", v |-> <<>>]
    [] h = 12 -> LET m == D(s, 370 + n, 1, 5)
                     es == [k \in 1..m |-> [img |-> IF C(s, 380 + (10 * n) + k, 15) THEN D(s, 390 + k, -3, -1) ELSE D(s, 400 + (10 * n) + k, 0, 4), pose |-> IF C(s, 500 + (10 * n) + k, 15) THEN D(s, 510 + k, -3, -1) ELSE D(s, 520 + (10 * n) + k, 0, 4)]]
                 IN [part |-> "idx", n |-> 0, how |-> "list", do |-> "write", file |-> "data.yaml", text |-> Joined(es), v |-> es]
    [] OTHER -> LET w == PickD(s, 600 + n, <<"i", "p">>) IN [part |-> "dirs", n |-> 0, how |-> w, do |-> "write", file |-> IF w = "i" THEN "images" ELSE "poses", text |-> "in the way", v |-> <<>>]
\* where the directory is, and how its index is called when it is loaded
Where(s, n) == PickD(s, 700 + n, << [path |-> "d/data.yaml", cd |-> "", absolute |-> TRUE], [path |-> "d/data.yaml", cd |-> "", absolute |-> FALSE], [path |-> "./d/data.yaml", cd |-> "", absolute |-> FALSE], [path |-> "data.yaml", cd |-> "d", absolute |-> FALSE], [path |-> "d//data.yaml", cd |-> "", absolute |-> FALSE] >>)
\* once a file stands where a directory should be, nothing in it can be damaged any more
Blocked(d) == (st.nodir # "" /\ d.part \in {"img", "pose", "dirs"}) \/ (d.part = "idx" /\ st.idx.k = "dir" /\ d.how = "dir")
DoSave == /\ phase = "run" /\ N_ <= Steps(sid) /\ Kind(sid, N_) = "save"
          /\ given' = Append(given, SetOf(sid, N_))
          /\ st' = Strict(SavedIf(st, SetOf(sid, N_), CanSave(st, SetOf(sid, N_)) /\ RoomOf(sid, N_) = 0))
          /\ steps' = Append(steps, [do |-> "save", set |-> SetOf(sid, N_), d |-> <<>>, w |-> <<>>, room |-> RoomOf(sid, N_)]) /\ UNCHANGED <<sid, phase>>
DoDamage == /\ phase = "run" /\ N_ <= Steps(sid) /\ Kind(sid, N_) = "damage"
            /\ (IF Blocked(DamageOf(sid, N_)) THEN st' = st /\ steps' = Append(steps, [do |-> "load", set |-> <<>>, d |-> <<>>, w |-> Where(sid, N_), room |-> 0])
                ELSE st' = Strict(Damage(st, DamageOf(sid, N_))) /\ steps' = Append(steps, [do |-> "damage", set |-> <<>>, d |-> DamageOf(sid, N_), w |-> <<>>, room |-> 0]))
            /\ UNCHANGED <<sid, phase, given>>
DoLoad == /\ phase = "run" /\ N_ <= Steps(sid) /\ Kind(sid, N_) = "load"
          /\ steps' = Append(steps, [do |-> "load", set |-> <<>>, d |-> <<>>, w |-> Where(sid, N_), room |-> 0]) /\ UNCHANGED <<sid, phase, st, given>>
\* in the end it is loaded
Last == /\ phase = "run" /\ N_ > Steps(sid) /\ phase' = "ready"
        /\ steps' = Append(steps, [do |-> "load", set |-> <<>>, d |-> <<>>, w |-> Where(sid, N_), room |-> 0]) /\ UNCHANGED <<sid, st, given>>
SetOut(set) == [images |-> set.images, poses |-> [k \in 1..Len(set.poses) |-> DecPose(set.poses[k])]]
StepOut(x) == CASE x.do = "save" -> [do |-> "save", path |-> "d", room |-> x.room] @@ SetOut(x.set)
                [] x.do = "load" -> [do |-> "load"] @@ x.w
                [] OTHER -> [do |-> x.d.do, file |-> "d/" \o x.d.file, text |-> x.d.text, part |-> x.d.part, n |-> x.d.n, how |-> x.d.how, v |-> IF x.d.how = "ok" THEN DecPose(x.d.v) ELSE x.d.v]
RECURSIVE AllImages(_)
AllImages(g) == IF Len(g) = 0 THEN <<>> ELSE g[1].images \o AllImages(Tail(g))
Case == [id |-> "C20-" \o ToString(sid), op |-> "store", pictures |-> AllImages(given), steps |-> [k \in 1..Len(steps) |-> StepOut(steps[k])]]
Emit == phase = "ready" /\ PrintT("CASE " \o ToJson(Case)) /\ phase' = "done" /\ UNCHANGED <<sid, st, steps, given>>
Next == DoSave \/ DoDamage \/ DoLoad \/ Last \/ Emit
Spec == Init /\ [][Next]_vars
\* ---- what the model promises ----
\* what was saved last and not touched since is what will be loaded
Kept == phase = "run" /\ Len(steps) > 0 /\ steps[Len(steps)].do = "save" /\ st.idx.k = "list" => MustLoad(st) /\ Pairs(st) = Given(given[Len(given)])
\* without edits by hand every pair that can be loaded was given as a pair
ByHand == \E k \in 1..Len(steps) : steps[k].do = "damage" /\ (steps[k].d.how = "list" \/ steps[k].d.how = "ok")
NeverMixed == ~ByHand => \A k \in 1..Len(Pairs(st)) : \E g \in 1..Len(given) : \E i \in 1..Len(Given(given[g])) : Given(given[g])[i] = Pairs(st)[k]
\* a failed save leaves no third possibility
Unsure == st.idx.k = "unsure" => Len(st.alts) >= 2
=============================================================================
