------------------------------ MODULE CalibGen ------------------------------
(***************************************************************************)
(* How a calibration problem comes about: a rig is set up (true poses,     *)
(* cameras, target), images are taken one by one until they determine the  *)
(* unknowns, a guess is made, and the problem is handed to the solver.     *)
(* Every behaviour is one scenario; its last state is printed as a case    *)
(* for the real solver.  The invariants state what the measurement model   *)
(* promises about every such scenario.                                     *)
(***************************************************************************)
EXTENDS Calib, Rnd, Json

CONSTANTS MODE, SEED, N

VARIABLES sid, phase, prob, truth, pts, xs, want
vars == <<sid, phase, prob, truth, pts, xs, want>>

St(s) == Mix((SEED * 7919 + s * 104729) % 2000003, s)      \* the scenario's stream
\* Two independent streams make collisions of whole scenarios negligible
D(s, k, lo, hi) == lo + ((Mix(St(s), k) + Mix(St(s + 5000), k + 77)) % (hi - lo + 1))
C(s, k, n) == D(s, k, 0, 99) < n

FracI(n, d) == RFrac(n, d)
\* turns of less than 120 degrees, so that the angle-axis vector of an estimate is known (C08)
MildQ(s, k) == IF D(s, k, 0, 11) = 0 THEN QId ELSE QInt(D(s, k+1, 2, 5), D(s, k+2, -2, 2), D(s, k+3, -2, 2), D(s, k+4, -2, 2))
DrawQ(s, k) ==
  IF MODE = "C08" THEN MildQ(s, k) ELSE
  LET style == D(s, k, 0, 11)
      q == <<D(s, k+1, -4, 4), D(s, k+2, -4, 4), D(s, k+3, -4, 4), D(s, k+4, -4, 4)>>
  IN  CASE style = 0 -> QId
        [] style = 1 -> QInt(0, 1, 0, 0)                    \* half turn
        [] style = 2 -> QInt(1, 0, 0, 1)                    \* quarter turn
        [] OTHER -> IF q = <<0,0,0,0>> THEN QInt(2, 1, -1, 1) ELSE QInt(q[1], q[2], q[3], q[4])
DrawT(s, k, r) == << FracI(D(s, k, -r, r), 20), FracI(D(s, k+1, -r, r), 20), FracI(D(s, k+2, -r, r), 20) >>
DrawPose(s, k) == Pose(DrawQ(s, k), DrawT(s, k + 5, 25))
SmallPose(s, k, w, t) == Pose(QInt(w, D(s, k, -1, 1), D(s, k+1, -1, 1), D(s, k+2, -1, 1)),
                              << FracI(D(s, k+3, -2, 2), t), FracI(D(s, k+4, -2, 2), t), FracI(D(s, k+5, -2, 2), t) >>)
DrawIntr(s, k) == << RInt(D(s, k, 450, 900)), RInt(D(s, k+1, 450, 900)), FracI(D(s, k+2, 600, 700), 2), FracI(D(s, k+3, 400, 500), 2) >>

PRange(n) == 1..n
DrawPts(s, k) ==
  LET planar == C(s, k, 45)
      n == D(s, k+1, 6, 9)
      z(i) == IF planar THEN 0 ELSE D(s, k + 10 + 4*i, -6, 6)
      base == << <<-6, -5>>, <<6, -4>>, <<5, 6>>, <<-5, 5>> >>
      zz(i) == IF planar THEN 0 ELSE (IF i % 2 = 0 THEN 3 ELSE -3)
  IN [i \in PRange(n) |-> IF i <= 4 THEN << FracI(base[i][1], 40), FracI(base[i][2], 40), FracI(zz(i), 40) >>
                       ELSE << FracI(D(s, k + 11 + 4*i, -7, 7), 40), FracI(D(s, k + 12 + 4*i, -7, 7), 40), FracI(z(i), 40) >>]

\* ---- configuration ----
KindsOf == CASE MODE = "C01" -> <<"hand_eye">>
             [] MODE = "C02" -> <<"ms_wrist", "ms_only", "ms_rig", "mc_pnp">>
             [] MODE = "C03" -> <<"pnp">>
             [] MODE = "C04" -> <<"hand_eye", "ms_wrist", "pnp", "ms_only", "hand_eye", "ms_rig", "mc_pnp", "pnp">>
             [] MODE = "C05" -> <<"hand_eye">>
             [] MODE = "C08" -> <<"hand_eye", "pnp", "ms_wrist">>
             [] OTHER -> <<"hand_eye", "ms_wrist", "ms_only", "ms_rig", "mc_pnp", "pnp">>
KindOf(s) == KindsOf[1 + (s % Len(KindsOf))]
DimOf(s) == IF MODE = "C05" THEN 2
            ELSE IF KindOf(s) \in {"hand_eye", "pnp"} THEN (IF (s \div Len(KindsOf)) % 3 = 1 THEN 3 ELSE 2) ELSE 2
NumCams(s) == IF KindOf(s) \in {"hand_eye", "pnp"} THEN 1 ELSE D(s, 3, IF KindOf(s) = "ms_only" THEN 2 ELSE 1, IF KindOf(s) = "mc_pnp" THEN 5 ELSE IF KindOf(s) = "ms_only" THEN 4 ELSE 3)
\* camera-to-target with the target in front; a 3D sensor may have it anywhere around itself
DrawX(s, k) == Pose(DrawQ(s, k), << FracI(D(s, k+5, -5, 5), 20), FracI(D(s, k+6, -5, 5), 20),
                   IF DimOf(s) = 3 /\ C(s, k+8, 50) THEN FracI(D(s, k+7, -34, 3), 20) ELSE FracI(D(s, k+7, 18, 34), 20) >>)
\* some robots are moved little by little: every other view is a small step from the one before
Nudge(s, k) == Pose(QInt(1000, D(s, k, -3, 3), D(s, k+1, -3, 3), D(s, k+2, -3, 3)),
                    << FracI(D(s, k+3, -4, 4), 1000), FracI(D(s, k+4, -4, 4), 1000), FracI(D(s, k+5, -4, 4), 1000) >>)
Stepwise(s) == MODE # "C08" /\ KindOf(s) \in {"hand_eye", "ms_wrist"} /\ C(s, 85, 35)
\* views per camera (independent images) or images (rectangular kinds)
NumImgs(s) == CASE KindOf(s) \in {"pnp", "mc_pnp"} -> 1
                [] KindOf(s) = "ms_only" -> D(s, 4, 2, 4)
                [] KindOf(s) = "hand_eye" -> D(s, 4, 4, 6)
                [] OTHER -> D(s, 4, 4, 5)
Side(s) == <<"camera", "target", "both">>[1 + ((s \div 2) % 3)]
Rect(kind) == kind \in {"ms_only", "ms_rig", "mc_pnp"}

Init == /\ sid \in 1..N
        /\ phase = "start" /\ prob = <<>> /\ truth = <<>> /\ pts = <<>> /\ xs = <<>>
        /\ want = <<>>

\* ---- the rig ----
SetUp ==
  /\ phase = "start"
  /\ LET kind == KindOf(sid)
         nc == NumCams(sid)
         ni == NumImgs(sid)
         cam1 == DrawPose(sid, 100)
         \* cameras of one rig look the same way; those of ms_wrist stand anywhere
         cams == [c \in 1..nc |-> IF c = 1 THEN cam1
                                  ELSE IF Rect(kind) THEN PMul(cam1, SmallPose(sid, 120 + 10*c, 14, 16))
                                  ELSE DrawPose(sid, 120 + 10*c)]
         tgt == DrawPose(sid, 200)
         ximg == [i \in 1..ni |-> DrawX(sid, 300 + 10*i)]
     IN /\ pts' = Strict(DrawPts(sid, 400))
        \* xs: for rectangular kinds the camera-1-to-target pose of every image
        /\ xs' = IF Rect(kind) THEN Strict(ximg) ELSE <<>>
        /\ truth' = Strict([cam |-> IF kind = "pnp" THEN <<>> ELSE cams,
              tgt |-> CASE kind = "ms_only" -> [i \in 1..ni |-> PMul(cam1, ximg[i])]
                        [] kind = "mc_pnp" -> <<PMul(cam1, ximg[1])>>
                        [] kind = "pnp" -> <<DrawX(sid, 300)>>
                        [] OTHER -> <<tgt>>])
        /\ prob' = Strict([kind |-> kind, dim |-> DimOf(sid), fix |-> (kind = "ms_only" /\ C(sid, 5, 50)), ni |-> ni,
                    intr |-> [c \in 1..nc |-> DrawIntr(sid, 500 + 10*c)], cam |-> <<>>, tgt |-> <<>>, views |-> <<>>])
        /\ want' = [n |-> IF Rect(kind) THEN nc * ni ELSE IF kind = "ms_wrist" THEN nc * ni ELSE ni]
  /\ phase' = "views" /\ UNCHANGED sid

\* ---- one image ----
TruthEst == AsEst(truth.cam, truth.tgt)
\* quaternion of a view's camera-to-target rotation
QOf(v) == QMul(QConj(IF prob.kind = "pnp" THEN QId ELSE truth.cam[v.c].q),
               QMul(QConj(v.cm.q), QMul(v.tm.q, truth.tgt[TgtOf(prob.kind, v.i)].q)))
Good(v) == Len(v.feats) >= 5
QVec(q) == <<q[2], q[3], q[4]>>
\* do the rotations of the usable views turn about two clearly different axes?
TwoAxes(qs) ==
  \E i, j, k \in 1..Len(qs) : i < j /\ j < k /\
     LET a == Strict(QMul(QConj(qs[i]), qs[j])) b == Strict(QMul(QConj(qs[i]), qs[k])) x == Strict(Cross(QVec(a), QVec(b)))
     IN RLt(RFrac(1, 30), RDiv(VSq(x), RMul(QSq(a), QSq(b))))
Determined ==
  IF prob.kind \in {"hand_eye", "ms_rig", "ms_wrist"}
  THEN \E c \in 1..Len(prob.intr) :
          LET g == SelectSeq(prob.views, LAMBDA v : Good(v) /\ v.c = c)
          IN  Len(g) >= 4 /\ TwoAxes(Strict([k \in 1..Len(g) |-> QOf(g[k])]))
  ELSE TRUE

\* features of a view with camera-to-target X: a drawn subset of the points in a drawn order
FeatsOf(X, c, k, sparse) ==
  LET n == Len(pts)
      perm == Perm(St(sid), 2000 + 37 * k, n)
      m == IF sparse THEN D(sid, 2600 + k, 0, 3) ELSE D(sid, 2600 + k, 5, n)
      \* the first four points span the target: a dense view keeps at least three of them and two others
      sel == IF sparse THEN SubSeq(perm, 1, m)
             ELSE SelectSeq(perm, LAMBDA a : a <= 4 \/ (a + k) % n < m)
      MX == PM(X)
      vis == SelectSeq(sel, LAMBDA a : prob.dim = 3 \/ RLt(RFrac(1, 4), MPApply(MX, pts[a])[3]))
  IN Strict([a \in 1..Len(vis) |-> [o |-> Predict([dim |-> prob.dim, intr |-> prob.intr], MX, c, pts[vis[a]]), p |-> pts[vis[a]]]])

TakeView ==
  /\ phase = "views"
  /\ LET k == Len(prob.views) + 1
         kind == prob.kind
         nc == Len(prob.intr)
         c == IF kind \in {"hand_eye", "pnp"} THEN 1
              ELSE IF kind = "ms_wrist" THEN 1 + ((k - 1) % nc)
              ELSE 1 + ((k - 1) % nc)
         i == IF Rect(kind) THEN 1 + ((k - 1) \div nc) ELSE IF kind = "ms_wrist" THEN 1 + ((k - 1) \div nc) ELSE k
         near == Stepwise(sid) /\ i % 2 = 0
         \* poses of this image
         X == IF Rect(kind) THEN PMul(PInv(truth.cam[c]), PMul(truth.cam[1], xs[i]))
              ELSE IF kind = "pnp" THEN truth.tgt[1]
              ELSE IF near THEN PMul(DrawX(sid, 1000 + 20*(k-nc)), Nudge(sid, 1010 + 20*k)) ELSE DrawX(sid, 1000 + 20*k)
         cc == IF kind = "pnp" THEN PId ELSE truth.cam[c]
         tt == truth.tgt[TgtOf(kind, i)]
         free == IF near THEN PMul(DrawPose(sid, 1500 + 20*(k-nc)), Nudge(sid, 1510 + 20*k)) ELSE DrawPose(sid, 1500 + 20*k)
         cm == IF kind # "hand_eye" \/ Side(sid) = "target" THEN PId
               ELSE IF Side(sid) = "both" THEN free
               ELSE PMul(DrawPose(sid, 90), PMul(PMul(tt, PInv(X)), PInv(cc)))
         tm == CASE kind \in {"ms_only", "mc_pnp", "pnp"} -> PId
                 [] kind = "ms_wrist" -> PMul(cc, PMul(X, PInv(tt)))
                 [] kind = "ms_rig" -> PMul(truth.cam[1], PMul(xs[i], PInv(tt)))
                 [] Side(sid) = "camera" -> DrawPose(sid, 90)
                 [] OTHER -> PMul(cm, PMul(cc, PMul(X, PInv(tt))))
         sparse == CASE kind = "pnp" -> FALSE
                     [] kind \in {"ms_only", "mc_pnp"} -> c > 1 /\ i > 1 /\ C(sid, 700 + k, 35)
                     [] OTHER -> C(sid, 700 + k, 15)
         v == [c |-> c, i |-> i, cm |-> cm, tm |-> tm, feats |-> FeatsOf(X, c, k, sparse)]
     IN  prob' = [prob EXCEPT !.views = Append(@, Strict(v)), !.ni = IF i > @ /\ ~Rect(kind) THEN i ELSE @]
  /\ phase' = IF Len(prob'.views) < want.n THEN "views" ELSE "guess"
  /\ UNCHANGED <<sid, truth, pts, xs, want>>

\* not yet determined: take more (not for rectangular problems, whose images are fixed: discard)
MoreViews ==
  /\ phase = "guess" /\ Determined = FALSE
  /\ IF Rect(prob.kind) \/ Len(prob.views) > 16
     THEN phase' = "discard" /\ UNCHANGED want
     ELSE phase' = "views" /\ want' = [want EXCEPT !.n = @ + Len(prob.intr)]
  /\ UNCHANGED <<sid, prob, truth, pts, xs>>

\* ---- the guess ----
\* ms_rig: the cameras keep their relation, so a guess moves all of them by one transform
GuessCams ==
  CASE prob.kind = "pnp" -> <<>>
    [] prob.kind = "mc_pnp" -> truth.cam
    [] prob.kind = "ms_rig" -> LET K == SmallPose(sid, 3000, 20, 120) IN [c \in 1..Len(truth.cam) |-> PMul(K, truth.cam[c])]
    [] OTHER -> [c \in 1..Len(truth.cam) |-> IF prob.fix /\ c = 1 THEN truth.cam[1]
                  ELSE PMul(truth.cam[c], SmallPose(sid, 3000 + 10*c, 20, 60))]
GuessTgts == [k \in 1..Len(truth.tgt) |->
   IF prob.kind = "pnp" /\ MODE = "C03" /\ C(sid, 3099, 30) /\ RLt(RFrac(9, 10), RDiv(RSq(truth.tgt[1].q[1]), QSq(truth.tgt[1].q)))
   THEN Pose(QId, truth.tgt[k].t)
   ELSE PMul(truth.tgt[k], SmallPose(sid, 3100 + 10*k, 20, 60))]
Front(est) == prob.dim = 3 \/ \A z \in AllDepths(prob, est) : RLt(RFrac(1, 10), z)

MakeGuess ==
  /\ phase = "guess" /\ Determined = TRUE
  /\ LET g == Strict([prob EXCEPT !.cam = GuessCams, !.tgt = GuessTgts])
     IN  prob' = IF Front(GuessEst(g)) THEN g ELSE [prob EXCEPT !.cam = truth.cam, !.tgt = GuessTgts]
  /\ phase' = "ready" /\ UNCHANGED <<sid, truth, pts, xs, want>>

\* ---- disturbances (C04): noise, a gross outlier, a far guess, a cut-off solve ----
NoiseOf(k, a, d) == IF prob.dim = 2 THEN RFrac(D(sid, 4000 + 131*k + 7*a + d, -30, 30), 10)
                    ELSE RFrac(D(sid, 4000 + 131*k + 7*a + d, -30, 30), 2000)
Noisy(views) == [k \in 1..Len(views) |-> [views[k] EXCEPT !.feats =
    [a \in 1..Len(views[k].feats) |-> [views[k].feats[a] EXCEPT !.o = [d \in 1..prob.dim |-> RAdd(@[d], NoiseOf(k, a, d))]]]]]
FarGuess(p) == PMul(p, Pose(QInt(D(sid, 4900, 3, 6), D(sid, 4901, -2, 2), D(sid, 4902, -2, 2), D(sid, 4903, -2, 2)), DrawT(sid, 4910, 3)))
Disturb ==
  /\ phase = "ready" /\ MODE = "C04"
  /\ LET far == D(sid, 4800, 0, 3) = 0
         fp == Strict([prob EXCEPT !.views = Noisy(prob.views),
                  !.tgt = IF far THEN [k \in 1..Len(prob.tgt) |-> FarGuess(prob.tgt[k])] ELSE prob.tgt])
         \* hand-eye refuses guesses behind the camera; keep those apart (C05)
     IN prob' = IF far /\ ~Front(GuessEst(fp)) THEN [fp EXCEPT !.tgt = prob.tgt] ELSE fp
  /\ phase' = "final" /\ UNCHANGED <<sid, truth, pts, xs, want>>

\* ---- one feature behind the camera (C05) ----
\* the offending target point, in the camera frame of the guess: at z < 0, exactly z = 0, or just in front
BehindZ == CASE D(sid, 5000, 0, 5) \in {0, 1} -> RFrac(-D(sid, 5001, 1, 60), 20)
             [] D(sid, 5000, 0, 5) = 2 -> RFrac(-1, 100000)
             [] D(sid, 5000, 0, 5) = 3 -> RFrac(1, 100000)
             [] OTHER -> RFrac(D(sid, 5001, 1, 60), 20)
\* a guess and an image without rotations, all of it on a grid of eighths, so that a point can lie exactly in the image plane
Eighths(s, k) == << FracI(D(s, k, -8, 8), 8), FracI(D(s, k+1, -8, 8), 8), FracI(D(s, k+2, -8, 8), 8) >>
Plain(p, v, at) ==
  LET cam == Strict(Pose(QId, Eighths(sid, 5100)))
      tgt == Strict(Pose(QId, Eighths(sid, 5110)))
      depth == FracI(D(sid, 5202, 8, 20), 8)
      off == CASE D(sid, 5009, 0, 3) = 0 -> RFrac(-1, 1024) [] D(sid, 5009, 0, 3) = 1 -> RFrac(1, 1024) [] OTHER -> RZero
      f == [o |-> <<RInt(100), RInt(100)>>, p |-> << FracI(D(sid, 5010, -8, 8), 8), FracI(D(sid, 5011, -8, 8), 8), RAdd(RNeg(depth), off) >>]
      fs == p.views[v].feats
      X(k) == IF k = v THEN Pose(QId, << FracI(D(sid, 5200, -2, 2), 8), FracI(D(sid, 5201, -2, 2), 8), depth >>)
              ELSE PMul(PInv(truth.cam[1]), PMul(PInv(p.views[k].cm), PMul(p.views[k].tm, truth.tgt[1])))
      cm(k) == IF k = v THEN Pose(QId, Eighths(sid, 5120)) ELSE p.views[k].cm
      view(k) == [p.views[k] EXCEPT !.cm = cm(k), !.tm = PMul(cm(k), PMul(cam, PMul(X(k), PInv(tgt)))),
                    !.feats = IF k = v THEN SubSeq(fs, 1, at) \o <<f>> \o SubSeq(fs, at + 1, Len(fs)) ELSE @]
  IN Strict([p EXCEPT !.cam = <<cam>>, !.tgt = <<tgt>>, !.views = [k \in 1..Len(p.views) |-> view(k)]])
PlaceFeature ==
  /\ phase = "ready" /\ MODE = "C05"
  /\ LET v == D(sid, 5002, 1, Len(prob.views))
         where == D(sid, 5003, 0, 2)
         view == prob.views[v]
         X == Strict(CameraToTarget(prob, GuessEst(prob), view))
         pc == << RFrac(D(sid, 5004, -9, 9), 20), RFrac(D(sid, 5005, -9, 9), 20), BehindZ >>
         \* the point is given in the target frame: round it, so that it is a short number
         p0 == Strict(MPApply(MPInv(X), pc))
         p == [d \in 1..3 |-> RRound(p0[d], RInt(100000000))]
         f == [o |-> <<RInt(100), RInt(100)>>, p |-> p]
         fs == view.feats
         at == CASE where = 0 -> 0 [] where = 1 -> Len(fs) [] OTHER -> D(sid, 5006, 0, Len(fs))
         fs2 == SubSeq(fs, 1, at) \o <<f>> \o SubSeq(fs, at + 1, Len(fs))
     IN prob' = IF D(sid, 5007, 0, 9) = 0 THEN prob
                ELSE IF C(sid, 5008, 30) THEN Plain(prob, v, at)
                ELSE [prob EXCEPT !.views[v].feats = fs2]
  /\ phase' = "final" /\ UNCHANGED <<sid, truth, pts, xs, want>>

AsIs == /\ phase = "ready" /\ MODE \notin {"C04", "C05"}
        /\ phase' = "final" /\ UNCHANGED <<sid, prob, truth, pts, xs, want>>

\* ---- hand over: shuffle the views where their order is free, print the case ----
Dec(v) == [k \in 1..Len(v) |-> RDec(v[k])]
PoseOut(p) == [q |-> Dec(p.q), t |-> Dec(p.t)]
ViewOut(v) == [c |-> v.c, i |-> v.i, cm |-> PoseOut(v.cm), tm |-> PoseOut(v.tm),
   feats |-> [a \in 1..Len(v.feats) |-> [o |-> Dec(v.feats[a].o), p |-> Dec(v.feats[a].p)]]]
Order == Perm(St(sid), 6000, Len(prob.views))
Iters == IF MODE = "C04" THEN (CASE D(sid, 6100, 0, 7) = 0 -> 1 [] D(sid, 6100, 0, 7) = 1 -> 2 [] D(sid, 6100, 0, 7) = 2 -> 0 [] OTHER -> -1) ELSE -1
\* the names the user gives the poses in the covariance report
Labels == LET def == CASE prob.kind = "hand_eye" -> [cam |-> "camera_mount_to_camera", tgt |-> "target_mount_to_target"]
                       [] prob.kind = "ms_wrist" -> [cam |-> "base_to_camera", tgt |-> "wrist_to_target"]
                       [] OTHER -> [cam |-> "", tgt |-> "camera_to_target"]
          IN IF D(sid, 6200, 0, 2) = 0 THEN [cam |-> "c" \o ToString(sid), tgt |-> "t" \o ToString(sid)] ELSE def
Case == [id |-> MODE \o "-" \o ToString(sid), op |-> "solve", kind |-> prob.kind, dim |-> prob.dim, fix |-> prob.fix, ni |-> prob.ni,
   iters |-> Iters, lab |-> Labels,
   intr |-> [c \in 1..Len(prob.intr) |-> Dec(prob.intr[c])],
   cam |-> [c \in 1..Len(prob.cam) |-> PoseOut(prob.cam[c])],
   tgt |-> [c \in 1..Len(prob.tgt) |-> PoseOut(prob.tgt[c])],
   tcam |-> [c \in 1..Len(truth.cam) |-> PoseOut(truth.cam[c])],
   ttgt |-> [c \in 1..Len(truth.tgt) |-> PoseOut(truth.tgt[c])],
   views |-> [k \in 1..Len(prob.views) |-> ViewOut(prob.views[Order[k]])]]
Emit ==
  /\ phase = "final"
  /\ PrintT("CASE " \o ToJson(Case))
  /\ phase' = "done" /\ UNCHANGED <<sid, prob, truth, pts, xs, want>>

Next == SetUp \/ TakeView \/ MoreViews \/ MakeGuess \/ Disturb \/ PlaceFeature \/ AsIs \/ Emit
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* What the measurement model promises about every scenario                *)
(***************************************************************************)
Full == phase \in {"ready", "final"}
Clean == MODE \notin {"C04", "C05"} \/ phase = "ready"
\* the poses that made the data explain it exactly
TruthExplains == Full /\ Clean => CostPerObs(prob, TruthEst) = RZero
\* no feature was made behind its camera
TruthInFront == phase \in {"views", "guess"} /\ prob.dim = 2 => \A k \in 1..Len(prob.views) :
                   \A z \in Depths(prob, TruthEst, prob.views[k]) : RSgn(z) > 0
\* moving the base frame (and with it everything expressed in it) changes no prediction
Moved(g) == CASE prob.kind \in {"hand_eye"} ->
                 [p |-> [prob EXCEPT !.views = [k \in 1..Len(prob.views) |-> [prob.views[k] EXCEPT !.cm = PMul(g, @), !.tm = PMul(g, @)]]], c |-> truth.cam, t |-> truth.tgt]
              [] prob.kind \in {"ms_wrist", "ms_rig"} ->
                 [p |-> [prob EXCEPT !.views = [k \in 1..Len(prob.views) |-> [prob.views[k] EXCEPT !.tm = PMul(g, @)]]],
                  c |-> [k \in 1..Len(truth.cam) |-> PMul(g, truth.cam[k])], t |-> truth.tgt]
              [] prob.kind = "pnp" -> [p |-> prob, c |-> <<>>, t |-> truth.tgt]
              [] OTHER -> [p |-> prob, c |-> [k \in 1..Len(truth.cam) |-> PMul(g, truth.cam[k])],
                           t |-> [k \in 1..Len(truth.tgt) |-> PMul(g, truth.tgt[k])]]
BaseFrameFree == phase = "ready" =>
   LET m == Strict(Moved(DrawPose(sid, 7000))) IN CostPerObs(m.p, AsEst(m.c, m.t)) = RZero
\* the order of the images does not matter, and a wrong pairing is visible:
\* exchanging the target poses of two different dense views breaks the fit
OrderFree == phase = "ready" => CostPerObs([prob EXCEPT !.views = [k \in 1..Len(prob.views) |-> prob.views[Order[k]]]], TruthEst) = RZero
Swapped(a, b) == [prob EXCEPT !.views[a].tm = prob.views[b].tm, !.views[a].cm = prob.views[b].cm]
PairingVisible == phase = "ready" /\ prob.kind \in {"hand_eye", "ms_wrist"} =>
   \A a, b \in 1..Len(prob.views) :
      LET X == Strict(CameraToTarget(prob, TruthEst, prob.views[a]))
          Y == Strict(CameraToTarget(Swapped(a, b), TruthEst, Swapped(a, b).views[a]))
      IN  (a # b /\ Good(prob.views[a]) /\ ~MPNear(X, Y, RFrac(1, 1000), RFrac(1, 1000))) =>
             RSgn(CostPerObs(Swapped(a, b), TruthEst)) > 0
\* the guess differs from the truth only in what is guessed, and the solver has something to do
GuessShape == phase = "ready" => /\ Len(prob.cam) = Len(truth.cam) /\ Len(prob.tgt) = Len(truth.tgt)
                                 /\ prob.fix => PEq(prob.cam[1], truth.cam[1])
                                 /\ prob.kind = "mc_pnp" => \A c \in 1..Len(prob.cam) : PEq(prob.cam[c], truth.cam[c])
\* residual counting used for the cost
CountsResiduals == Full => NumResiduals(prob) > 0
=============================================================================
