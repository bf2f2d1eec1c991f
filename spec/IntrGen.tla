------------------------------ MODULE IntrGen ------------------------------
(***************************************************************************)
(* Intrinsic calibration: a camera with lens distortion photographs one    *)
(* target, image by image; some images show nothing a pose could be had    *)
(* from; guesses are made, or not, or too few of them.                     *)
(***************************************************************************)
EXTENDS Distort, Draws
CONSTANT MODE
VARIABLES sid, phase, cam, pts, poses, imgs, guess
vars == <<sid, phase, cam, pts, poses, imgs, guess>>
NI(s) == IF MODE = "C14" /\ C(s, 31, 8) THEN D(s, 1, 11, 12) ELSE D(s, 1, 4, 6)
Guided(s) == MODE = "C08" \/ D(s, 2, 0, 2) > 0
Init == sid \in 1..N /\ phase = "start" /\ cam = <<>> /\ pts = <<>> /\ poses = <<>> /\ imgs = <<>> /\ guess = <<>>
Flat(s) == D(s, 3, 0, 1) = 0
\* a grid of 5 by 4 points, slightly irregular
Pt(k) == LET i == (k - 1) % 5 j == (k - 1) \div 5 IN
   << RFrac(16 * (i - 2) + D(sid, 100 + 3*k, -2, 2), 200), RFrac(16 * (j - 1) - 8 + D(sid, 101 + 3*k, -2, 2), 200),
      IF Flat(sid) THEN RZero ELSE RFrac(D(sid, 102 + 3*k, -10, 10), 200) >>
Off(k) == CASE D(sid, 7, 0, 7) = 0 -> [k EXCEPT ![3] = RNeg(RDiv(@, RInt(4)))] [] D(sid, 7, 0, 7) = 1 -> [k EXCEPT ![4] = RNeg(RDiv(@, RInt(4)))] [] OTHER -> k
SetUp == /\ phase = "start"
         \* the principal point may lie outside the picture
         /\ cam' = Off(DrawIntr(sid, 10)) \o << F(sid, 20, -10, 10, 100), F(sid, 21, -5, 5, 100), F(sid, 22, -6, 6, 2000), F(sid, 23, -6, 6, 2000), F(sid, 24, -3, 3, 100) >>
         /\ pts' = Strict([k \in 1..20 |-> Pt(k)])
         /\ phase' = "images" /\ UNCHANGED <<sid, poses, imgs, guess>>
\* every image is tilted another way
Tilt(k) == LET b == << <<2, 1>>, <<-2, 1>>, <<1, -2>>, <<-1, 2>>, <<2, -2>>, <<-2, -2>> >>[1 + ((k - 1) % 6)] IN
           QInt(8, b[1], b[2], D(sid, 200 + k, -2, 2))
Base(s) == IF Guided(s) THEN QInt(D(s, 210, 3, 5), D(s, 211, -2, 2), D(s, 212, -2, 2), D(s, 213, -2, 2)) ELSE QInt(0, 1, 0, 0)
PoseAt(k) == Pose(QMul(Base(sid), Tilt(k)), << F(sid, 220 + 3*k, -2, 2, 40), F(sid, 221 + 3*k, -2, 2, 40), F(sid, 222 + 3*k, IF Guided(sid) THEN 26 ELSE 18, IF Guided(sid) THEN 36 ELSE 24, 40) >>)
\* one image in six (not in C08) shows nothing, or one point over and over
Broken(k) == MODE # "C08" /\ D(sid, 250 + k, 0, 5) = 0
\* (with noise, one point over and over may well determine a pose)
How(k) == IF MODE = "C04" THEN 0 ELSE D(sid, 260 + k, 0, 1)
Photo(k, p) == LET m == PM(p)
                   ks == SelectSeq(Perm(St(sid), 300 + 40*k, 20), LAMBDA a : TRUE)
                   n == D(sid, 270 + k, 14, 20)
                   err(a, d) == IF MODE = "C04" /\ D(sid, 9, 0, 1) > 0 THEN RFrac(D(sid, 600 + 61*k + 3*a + d, -20, 20), 10) ELSE RZero
                   see(a) == [o |-> LET o == DProject(cam, Strict(MPApply(m, pts[a]))) IN << RAdd(o[1], err(a, 1)), RAdd(o[2], err(a, 2)) >>, p |-> pts[a]]
               IN IF Broken(k) THEN (IF How(k) = 0 THEN <<>> ELSE [a \in 1..6 |-> see(7)])
                  ELSE Strict([a \in 1..n |-> see(ks[a])])
Shoot == /\ phase = "images"
         /\ LET k == Len(imgs) + 1 p == Strict(PoseAt(k)) IN
            /\ poses' = Append(poses, p) /\ imgs' = Append(imgs, Photo(k, p))
         /\ phase' = IF Len(imgs') < NI(sid) THEN "images" ELSE "guess"
         /\ UNCHANGED <<sid, cam, pts, guess>>
Near(p, k) == PMul(p, Pose(QInt(20, D(sid, 500 + 6*k, -1, 1), D(sid, 501 + 6*k, -1, 1), D(sid, 502 + 6*k, -1, 1)), << F(sid, 503 + 6*k, -2, 2, 100), F(sid, 504 + 6*k, -2, 2, 100), F(sid, 505 + 6*k, -2, 2, 100) >>))
\* guesses: one per image, or one missing, one surplus, or none used although given
Amount(s) == IF MODE = "C08" THEN 0 ELSE (CASE D(s, 4, 0, 9) = 0 -> -1 [] D(s, 4, 0, 9) = 1 -> 1 [] OTHER -> 0)
Guess == /\ phase = "guess"
         /\ guess' = [k \in 1..4 |-> RMul(cam[k], F(sid, 30 + k, 97, 103, 100))]
         /\ phase' = "ready" /\ UNCHANGED <<sid, cam, pts, poses, imgs>>
Guesses == LET n == Len(poses) + Amount(sid) IN
           IF Guided(sid) THEN [k \in 1..n |-> IF k > Len(poses) THEN PId ELSE Near(poses[k], k)]
           \* given but not asked for: wrong ones
           ELSE IF D(sid, 5, 0, 1) = 0 THEN <<>> ELSE [k \in 1..Len(poses) |-> Pose(QId, VInt(0, 0, -1))]
Case == [id |-> MODE \o "-intr-" \o ToString(sid), op |-> "intrinsic",
   iters |-> IF MODE # "C04" THEN -1 ELSE CASE D(sid, 8, 0, 5) = 0 -> 1 [] D(sid, 8, 0, 5) = 3 -> D(sid, 25, 2, 8) [] D(sid, 8, 0, 5) = 1 -> D(sid, 25, 2, 8) [] D(sid, 8, 0, 5) = 2 -> 0 [] OTHER -> -1,
   imgs |-> [k \in 1..Len(imgs) |-> [a \in 1..Len(imgs[k]) |-> [o |-> Dec(imgs[k][a].o), p |-> Dec(imgs[k][a].p)]]],
   k |-> Dec(guess), use |-> Guided(sid), guesses |-> [k \in 1..Len(Guesses) |-> DecPose(Guesses[k])],
   label |-> IF D(sid, 6, 0, 1) = 0 THEN "pose" ELSE "view" \o ToString(sid),
   tk |-> Dec(cam), tposes |-> [k \in 1..Len(poses) |-> DecPose(poses[k])],
   bad |-> SelectSeq([k \in 1..Len(imgs) |-> k], LAMBDA k : Broken(k))]
Emit == phase = "ready" /\ PrintT("CASE " \o ToJson(Case)) /\ phase' = "done" /\ UNCHANGED <<sid, cam, pts, poses, imgs, guess>>
Next == SetUp \/ Shoot \/ Guess \/ Emit
Spec == Init /\ [][Next]_vars
\* the camera explains its images, everything is in front of it, without distortion it is the plain pinhole,
\* and distortion keeps points in order along every ray (so an image determines the ray)
Explained == phase = "ready" /\ MODE # "C04" /\ (\E k \in 1..Len(imgs) : imgs[k] # <<>>) =>
   LET ks == SelectSeq([k \in 1..Len(imgs) |-> k], LAMBDA k : imgs[k] # <<>>) IN
   IntrCost(cam, [i \in 1..Len(ks) |-> PM(poses[ks[i]])], [i \in 1..Len(ks) |-> imgs[ks[i]]]) = RZero
Ahead == phase = "ready" => \A k \in 1..Len(poses) : \A a \in 1..20 : RLt(RFrac(1, 5), PApply(poses[k], pts[a])[3])
Undistorted == phase = "ready" => \A a \in 1..5 : LET q == PApply(poses[1], pts[a]) IN
   LET u == DProject(SubSeq(cam, 1, 4) \o [k \in 1..5 |-> RZero], q) v == Project(SubSeq(cam, 1, 4), q) IN
   \A i \in 1..2 : RNear(u[i], v[i], RParse("1e-36"))
Monotone == phase = "ready" => \A r \in 1..6 :
   LET s == RFrac(r, 10) f(t) == RMul(t, RAdd(ROne, RMul(RSq(t), RAdd(cam[5], RMul(RSq(t), RAdd(cam[6], RMul(RSq(t), cam[9]))))))) IN
   RLt(f(RFrac(r - 1, 10)), f(s))
=============================================================================
