------------------------------ MODULE ToolGen -------------------------------
(***************************************************************************)
(* A tool is set up: cameras are placed, pictures taken of a target that   *)
(* is found, found wrongly, or not found; something may be wrong with the  *)
(* parameters, the data or a solver.                                       *)
(***************************************************************************)
EXTENDS Tool, Draws
VARIABLES sid, phase, cams, shots
vars == <<sid, phase, cams, shots>>
ToolOf(s) == << "wrist", "static", "moving", "steps", "intr", "valid", "noise", "pnp", "mpnp" >>[1 + (s % 9)]
Kind == ToolOf(sid)
Multi == Kind \in {"moving", "steps", "mpnp"}
NumCams == IF Multi THEN PickD(sid, 1, <<1, 2, 2, 2, 3, 3>>) ELSE 1
NumPics == IF Kind = "pnp" THEN 1 ELSE IF C(sid, 2, 6) THEN 0 ELSE D(sid, 3, 1, 5)
NumPts == D(sid, 4, 12, 16)
Thr == PickD(sid, 5, <<"some", "some", "some", "all", "none">>)
ThrNum == CASE Thr = "none" -> "-1" [] Thr = "some" -> "5" [] Thr = "all" -> "1e30"
\* scattered points of a plane
APoint(k) == << F(sid, 1000 + (3 * k), -3000, 3000, 20000), F(sid, 1001 + (3 * k), -3000, 3000, 20000), RZero >>
Points == [k \in 1..NumPts |-> APoint(k)]
\* where the camera and the target really are, and who carries them
Cam == DrawPose(sid, 10, 30)
Tgt == DrawPose(sid, 30, 30)
InFront(k) == Pose(QInt(10, D(sid, k, -4, 4), D(sid, k + 1, -4, 4), D(sid, k + 2, -10, 10)), << F(sid, k + 3, -200, 200, 1000), F(sid, k + 4, -200, 200, 1000), F(sid, k + 5, 800, 1600, 1000) >>)
Small(k) == Pose(QInt(100, D(sid, k, -4, 4), D(sid, k + 1, -4, 4), D(sid, k + 2, -4, 4)), V3(sid, k + 3, 30, 1000))
\* in some runs the pictures are small and the target is in them, by the results too (what is drawn in them can be seen)
Over == (Multi \/ Kind \in HandEye) /\ C(sid, 9, 50)
SmallIntr(k) == << RInt(D(sid, k, 200, 400)), RInt(D(sid, k + 1, 200, 400)), F(sid, k + 2, 140, 180, 2), F(sid, k + 3, 100, 140, 2) >>
\* what the solvers answer for camera and target: nearly the truth where the truth is known
AnsCa == IF Kind \in HandEye THEN PMul(Cam, Small(90)) ELSE DrawPose(sid, 90, 30)
AnsTa == IF Kind \in HandEye THEN PMul(Tgt, Small(100)) ELSE DrawPose(sid, 100, 30)
About(k) == IF Over /\ Multi THEN PMul(AnsCa, Small(k)) ELSE DrawPose(sid, k, 30)
AnsTb == IF Over THEN PMul(AnsTa, Small(500)) ELSE DrawPose(sid, 500, 30)
Init == sid \in 1..N /\ phase = "place" /\ cams = <<>> /\ shots = <<>>
\* the next camera
Place == /\ phase = "place" /\ Len(cams) < NumCams
         /\ cams' = (LET k == 50 + (20 * Len(cams)) IN Append(cams, [intr |-> IF Over THEN SmallIntr(k) ELSE DrawIntr(sid, k), guess |-> IF Kind = "mpnp" THEN About(k + 5) ELSE DrawPose(sid, k + 5, 30), entries |-> <<>>]))
         /\ UNCHANGED <<sid, phase, shots>>
Placed == phase = "place" /\ Len(cams) = NumCams /\ phase' = "shoot" /\ UNCHANGED <<sid, cams, shots>>
\* the next picture: of the first camera that has not taken all its pictures
Turn == CHOOSE c \in 1..Len(cams) : Len(cams[c].entries) < NumPics /\ \A b \in 1..(c - 1) : Len(cams[b].entries) = NumPics
Base == 2000 + (100 * Len(shots))
How == IF C(sid, Base, IF Multi THEN 82 ELSE 72) THEN "found" ELSE PickD(sid, Base + 1, IF Kind \in {"noise", "valid"} THEN <<"none", "throw", "cv", "logic">> ELSE <<"none", "throw", "cv", "logic", "bad">>)
Kept == IF Kind \in HandEye /\ C(sid, Base + 2, 92) THEN D(sid, Base + 3, 12, NumPts) ELSE D(sid, Base + 3, 4, IF Kind \in HandEye THEN 11 ELSE NumPts)
Clean == ~(Kind \in HandEye) \/ C(sid, Base + 4, 75)
\* a view in which one feature is some pixels off
Off == Kind \in HandEye /\ ~Clean /\ C(sid, Base + 7, 60)
Aside == LET d == F(sid, Base + 8, 100, 1200, 10) IN IF C(sid, Base + 9, 50) THEN <<d, F(sid, Base + 16, -50, 50, 10)>> ELSE <<F(sid, Base + 16, -50, 50, 10), RSub(RZero, d)>>
Features(X, intr) == LET p == Perm(St(sid), Base + 10, NumPts) n == Kept
                         \* in a wrong view features are taken for one another, or two for the same
                         q == IF Clean \/ Off THEN [i \in 1..n |-> p[i]] ELSE IF C(sid, Base + 6, 30) THEN [i \in 1..n |-> p[1 + ((i + (n \div 3) + (i % 2)) % n)]]
                              ELSE LET m == Perm(St(sid), Base + 70, n) IN [i \in 1..n |-> p[m[i]]]
                            at == D(sid, Base + 15, 1, n) IN
   Strict([i \in 1..n |-> [id |-> p[i] - 1, u |-> LET u == Project(intr, PApply(X, Points[q[i]])) IN IF Off /\ i = at THEN <<RAdd(u[1], Aside[1]), RAdd(u[2], Aside[2])>> ELSE u]])
Separate == Kind = "moving" /\ C(sid, 6, 15)
ToolPose(X, c, i) == IF Kind = "wrist" THEN PMul(Tgt, PMul(PInv(X), PInv(Cam))) ELSE IF Kind = "static" THEN PMul(Cam, PMul(X, PInv(Tgt)))
                     ELSE LET k == 600 + (20 * i) + (IF Separate THEN 150 * c ELSE 0) IN
                          IF ~Over THEN DrawPose(sid, k, 40) ELSE LET Y == PMul(AnsCa, InFront(k)) IN IF Kind = "mpnp" THEN Y ELSE PMul(Y, PInv(AnsTa))
Gone == Kind \in {"wrist", "static", "intr", "valid", "pnp"} /\ C(sid, Base + 5, 8)
Shoot == /\ phase = "shoot" /\ (\E c \in 1..Len(cams) : Len(cams[c].entries) < NumPics)
         /\ LET c == Turn X == Strict(InFront(Base + 40)) code == 1 + Len(shots) + (20 * D(sid, 7, 0, 500)) IN
            /\ shots' = Append(shots, [code |-> code, w |-> IF Over THEN D(sid, Base + 60, 150, 170) ELSE D(sid, Base + 60, 44, 60), h |-> IF Over THEN D(sid, Base + 61, 110, 130) ELSE D(sid, Base + 61, 38, 50), gray |-> FALSE, how |-> How, clean |-> Clean, off |-> Off \/ (Over /\ ~Clean), X |-> X,
                                       found |-> IF How = "none" THEN <<>> ELSE Features(X, cams[c].intr)])
            /\ cams' = [cams EXCEPT ![c].entries = Append(@, [code |-> code, pose |-> ToolPose(X, c, Len(cams[c].entries)), gone |-> Gone])]
         /\ UNCHANGED <<sid, phase>>
Shot == phase = "shoot" /\ (\A c \in 1..Len(cams) : Len(cams[c].entries) = NumPics) /\ phase' = "ready" /\ UNCHANGED <<sid, cams, shots>>
\* ---- what may be wrong ----
Members == <<"x", "y", "z", "qx", "qy", "qz", "qw">>
APoseName == CASE Kind \in {"wrist", "valid"} -> PickD(sid, 70, <<"base_to_target_guess", "wrist_to_camera_guess">>)
               [] Kind = "static" -> PickD(sid, 70, <<"wrist_to_target_guess", "base_to_camera_guess">>)
               [] Kind \in {"moving", "steps"} -> "wrist_to_target_guess"
               [] Kind = "noise" -> "camera_to_target_guess"
               [] OTHER -> ""
Of(name, subs) == IF C(sid, 71, 30) THEN <<name>> ELSE <<name, PickD(sid, 72, subs)>>
InCamera == IF Multi THEN << "camera_" \o ToString(D(sid, 73, 0, NumCams - 1)) >> ELSE <<>>
Place1 == PickD(sid, 74, <<"intrinsics", "target_finder", "path", "pose", "pose", "other">>)
Path == CASE Place1 = "intrinsics" -> InCamera \o Of("intrinsics", <<"fx", "fy", "cx", "cy">>)
          [] Place1 = "target_finder" -> Of("target_finder", <<"type", "size">>)
          [] Place1 = "path" -> InCamera \o << IF Kind = "pnp" THEN "image_path" ELSE IF Kind = "noise" THEN "data_file" ELSE "data_path" >>
          [] Place1 = "pose" /\ Multi /\ (C(sid, 75, 60) \/ Kind = "mpnp") -> InCamera \o Of(IF Kind = "mpnp" THEN "base_to_camera" ELSE "base_to_camera_guess", Members)
          [] Place1 = "pose" /\ APoseName # "" -> Of(APoseName, Members)
          [] Place1 = "other" /\ Kind \in HandEye -> <<"homography_threshold">>
          [] Place1 = "other" /\ Kind = "steps" -> <<"fix_first_camera">>
          [] Place1 = "other" /\ Multi -> <<"num_of_cameras">>
          [] OTHER -> <<"target_finder">>
Damaged == C(sid, 76, 14)
DamageHow == IF Path = <<"target_finder", "size">> THEN PickD(sid, 77, <<"drop", "text", "zero">>) ELSE PickD(sid, 77, <<"drop", "text">>)
State(c) == IF Kind = "pnp" \/ Damaged \/ ~C(sid, 78, 10) \/ c # D(sid, 79, 1, NumCams) THEN "ok"
            ELSE PickD(sid, 80, IF Kind = "noise" THEN <<"broken", "keyless", "missing">> ELSE <<"broken", "scalar", "keyless", "missing">>)
Fail == IF C(sid, 81, 9) THEN D(sid, 82, 0, 3) ELSE -1
\* ---- what else the solvers answer ----
AnsPnp(k) == IF Over /\ Multi THEN PMul(AnsCa, InFront(200 + (20 * k))) ELSE IF Kind \in HandEye /\ k <= Len(shots) THEN PMul(shots[k].X, Small(110 + (10 * k))) ELSE DrawPose(sid, 200 + (20 * k), 30)
Nums == << F(sid, 400, 4000, 9000, 10), F(sid, 401, 4000, 9000, 10), F(sid, 402, 3000, 7000, 10), F(sid, 403, 2000, 5000, 10) >>
        \o [k \in 1..5 |-> F(sid, 403 + k, -5000, 5000, 10000)]
        \o << RFrac((2 * D(sid, 410, 0, 12)) + 1, 20000), F(sid, 411, 0, 6, 20000), F(sid, 412, 0, 100, 100000), F(sid, 413, 0, 20, 100000) >>
        \o [k \in 1..9 |-> F(sid, 413 + k, -9000, 9000, 7)]
Heads == [k \in 1..8 |-> [conv |-> C(sid, 430 + k, 60), init |-> RDec(F(sid, 440 + k, 100, 100000, 7)), final |-> RDec(F(sid, 450 + k, 0, 100, 9))]]
Case == [id |-> "C23-" \o ToString(sid), op |-> "tool", tool |-> Kind, thr |-> ThrNum, fix |-> C(sid, 8, 50), points |-> DecSeq(Points),
  pictures |-> [k \in 1..Len(shots) |-> LET s == shots[k] IN [code |-> s.code, w |-> s.w, h |-> s.h, gray |-> FALSE, how |-> s.how, clean |-> s.clean, off |-> s.off, found |-> [i \in 1..Len(s.found) |-> [id |-> s.found[i].id, u |-> Dec(s.found[i].u)]]]],
  cams |-> [c \in 1..Len(cams) |-> [intr |-> Dec(cams[c].intr), guess |-> DecPose(cams[c].guess), state |-> State(c), entries |-> [i \in 1..Len(cams[c].entries) |-> LET e == cams[c].entries[i] IN [code |-> e.code, pose |-> DecPose(e.pose), gone |-> e.gone]]]],
  tguess |-> DecPose(DrawPose(sid, 20, 30)), damage |-> [path |-> IF Damaged THEN Path ELSE <<>>, how |-> DamageHow], fail |-> Fail,
  ans |-> [a |-> [c \in 1..Len(cams) |-> DecPose(About(300 + (12 * c)))], b |-> [c \in 1..Len(cams) |-> DecPose(About(350 + (12 * c)))],
           ca |-> DecPose(AnsCa), ta |-> DecPose(AnsTa), tb |-> DecPose(AnsTb), pnps |-> [k \in 1..6 |-> DecPose(AnsPnp(k))], heads |-> Heads, nums |-> Dec(Nums)]]
Emit == phase = "ready" /\ PrintT("CASE " \o ToJson(Case)) /\ phase' = "done" /\ UNCHANGED <<sid, cams, shots>>
Next == Place \/ Placed \/ Shoot \/ Shot \/ Emit
Spec == Init /\ [][Next]_vars
\* ---- what the model promises ----
\* the run, as the tool sees it (the solvers' answers do not matter here)
Run == [tool |-> Kind, thr |-> Thr, fix |-> FALSE, damaged |-> FALSE, fail |-> -1, tguess |-> MPId, ca |-> PM(AnsCa), ta |-> PM(AnsTa), tb |-> MPId,
        a |-> [c \in 1..Len(cams) |-> MPId], b |-> [c \in 1..Len(cams) |-> MPId], pnps |-> <<MPId>>, heads |-> <<1>>, nums |-> Nums,
        pics |-> [code \in {shots[k].code : k \in 1..Len(shots)} |-> LET s == CHOOSE k \in 1..Len(shots) : shots[k].code = code IN
                    [how |-> shots[s].how, clean |-> shots[s].clean, near |-> FALSE, seen |-> {shots[s].found[i].id : i \in 1..Len(shots[s].found)}]],
        cams |-> [c \in 1..Len(cams) |-> [intr |-> cams[c].intr, guess |-> MPId, state |-> "ok", entries |-> [i \in 1..Len(cams[c].entries) |-> LET e == cams[c].entries[i] IN [code |-> e.code, pose |-> <<c, i>>, gone |-> e.gone]]]]]
Ready == phase = "ready"
\* a solver is given the pictures in which the target was found, and no others
OnlyFound == (Ready /\ Kind \in {"intr", "noise"} /\ ~NothingFound(Run)) => LET p == Problems(Run)[1] IN
   {p.obs[k].code : k \in 1..Len(p.obs)} = {e.code : e \in {x \in {cams[1].entries[i] : i \in 1..Len(cams[1].entries)} : ~x.gone /\ Run.pics[x.code].how = "found"}}
Once == Ready => \A i, k \in 1..Len(shots) : shots[i].code = shots[k].code => i = k
\* a true view: each feature is where its point is seen
True == Ready => \A k \in 1..Len(shots) : shots[k].clean => \A i \in 1..Len(shots[k].found) : \E c \in 1..Len(cams) :
   \E e \in 1..Len(cams[c].entries) : cams[c].entries[e].code = shots[k].code /\ shots[k].found[i].u = Project(cams[c].intr, PApply(shots[k].X, Points[shots[k].found[i].id + 1]))
\* the poses of a hand-eye run are those that the true poses of camera and target explain
Explained == (Ready /\ Kind \in HandEye) => \A i \in 1..Len(cams[1].entries) : LET p == PM(cams[1].entries[i].pose) IN
   LET X == MPMul(MPInv(PM(Cam)), IF Kind = "wrist" THEN MPMul(MPInv(p), PM(Tgt)) ELSE MPMul(p, PM(Tgt))) IN X = PM(shots[i].X)
\* pictures of which cameras agree are those of all, and all that some two share
Nested == (Ready /\ Multi /\ NumCams >= 2) => \A k \in 1..Len(Common(Run)) : \E j \in 1..Len(Shared(Run)) : Shared(Run)[j] = Common(Run)[k]
=============================================================================
