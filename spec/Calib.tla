------------------------------- MODULE Calib -------------------------------
(***************************************************************************)
(* The meaning of a calibration problem.                                   *)
(*                                                                         *)
(* A problem is a record                                                   *)
(*   kind  which solver: hand_eye, ms_wrist, ms_only, ms_rig, mc_pnp, pnp  *)
(*   dim   2 (pixels) or 3 (camera coordinates)                            *)
(*   intr  pinhole intrinsics <<fx, fy, cx, cy>> per camera                *)
(*   cam   camera poses (camera mount/base -> camera), one per camera      *)
(*   tgt   target poses (target mount/wrist/base -> target), one, or one   *)
(*         per image for ms_only                                           *)
(*   fix   first camera held fixed (ms_only)                               *)
(*   views sequence of images [c, i, cm, tm, feats]: camera index, image   *)
(*         index, the two calibration ("mount") poses, and the features    *)
(*         [o, p]: where the sensor saw the target point p                 *)
(* All solvers minimise the same thing, stated once here: half the sum of  *)
(* squared differences between every observed feature and the target point *)
(* seen through                                                            *)
(*     camera -> camera mount -> base -> target mount -> target.           *)
(***************************************************************************)
EXTENDS Geom

Kinds == {"hand_eye", "ms_wrist", "ms_only", "ms_rig", "mc_pnp", "pnp"}
TgtOf(kind, i) == IF kind = "ms_only" THEN i ELSE 1

\* A "pose algebra" is chosen by the caller: estimates are matrix poses.
\* est = [cam |-> Seq(MPose), tgt |-> Seq(MPose)]
CameraToTarget(prob, est, v) ==
  LET cam == IF prob.kind = "pnp" THEN MPId ELSE est.cam[v.c]
      tgt == est.tgt[TgtOf(prob.kind, v.i)]
  IN  MPMul(MPInv(cam), MPMul(MPInv(PM(v.cm)), MPMul(PM(v.tm), tgt)))

Predict(prob, X, c, p) ==
  LET q == Strict(MPApply(X, p)) IN IF prob.dim = 2 THEN Project(prob.intr[c], q) ELSE q

Residual(prob, X, c, f) ==
  LET e == Strict(Predict(prob, X, c, f.p)) IN [k \in 1..prob.dim |-> RSub(e[k], f.o[k])]

SqSum(prob, X, c, f) == LET r == Strict(Residual(prob, X, c, f)) IN
  RRound(IF prob.dim = 2 THEN RAdd(RSq(r[1]), RSq(r[2])) ELSE RAdd(RSq(r[1]), RAdd(RSq(r[2]), RSq(r[3]))), Grid24)

ViewSq(prob, est, v) ==
  LET X == Strict(CameraToTarget(prob, est, v))
  IN  RSum([k \in 1..Len(v.feats) |-> SqSum(prob, X, v.c, v.feats[k])])

NumResiduals(prob) == prob.dim * LET RECURSIVE S(_)
                                     S(i) == IF i = 0 THEN 0 ELSE S(i - 1) + Len(prob.views[i].feats)
                                 IN  S(Len(prob.views))
\* the cost every solver reports, per residual
CostPerObs(prob, est) ==
  RDiv(RSum([k \in 1..Len(prob.views) |-> ViewSq(prob, est, prob.views[k])]), RInt(2 * NumResiduals(prob)))

\* depth of every feature under an estimate
Depths(prob, est, v) ==
  LET X == Strict(CameraToTarget(prob, est, v))
  IN  {MPApply(X, v.feats[k].p)[3] : k \in 1..Len(v.feats)}
AllDepths(prob, est) == UNION {Depths(prob, est, prob.views[k]) : k \in 1..Len(prob.views)}

AsEst(cam, tgt) == Strict([cam |-> [k \in 1..Len(cam) |-> PM(cam[k])], tgt |-> [k \in 1..Len(tgt) |-> PM(tgt[k])]])
GuessEst(prob) == AsEst(prob.cam, prob.tgt)

\* ---- reading a problem from JSON ----
ReadFeat(f) == [o |-> NumV(f.o), p |-> NumV(f.p)]
ReadView(v) == [c |-> v.c, i |-> v.i, cm |-> ReadPose(v.cm), tm |-> ReadPose(v.tm),
                feats |-> [k \in 1..Len(v.feats) |-> ReadFeat(v.feats[k])]]
ReadProblem(j) == Strict([kind |-> j.kind, dim |-> j.dim, fix |-> j.fix,
   intr |-> [k \in 1..Len(j.intr) |-> NumV(j.intr[k])],
   cam |-> [k \in 1..Len(j.cam) |-> ReadPose(j.cam[k])],
   tgt |-> [k \in 1..Len(j.tgt) |-> ReadPose(j.tgt[k])],
   views |-> [k \in 1..Len(j.views) |-> ReadView(j.views[k])]])
\* an estimate reported by a solver (lists of 12 numbers)
ReadEst(o) == Strict([cam |-> [k \in 1..Len(o.cam) |-> ReadMPose(o.cam[k])], tgt |-> [k \in 1..Len(o.tgt) |-> ReadMPose(o.tgt[k])]])

(***************************************************************************)
(* What of an estimate the data can determine (the gauge): two estimates   *)
(* agree when they agree on everything observable.                         *)
(*   hand_eye, ms_wrist, mc_pnp, pnp  every pose                           *)
(*   ms_only, first camera fixed      every pose                           *)
(*   ms_only, free                    poses relative to the first camera   *)
(*   ms_rig                           every pose (one common correction)   *)
(***************************************************************************)
Gauged(prob, est) ==
  IF prob.kind = "ms_only" /\ ~prob.fix
  THEN LET r == Strict(MPInv(est.cam[1])) IN
       Strict([cam |-> [k \in 1..Len(est.cam) |-> MPMul(r, est.cam[k])], tgt |-> [k \in 1..Len(est.tgt) |-> MPMul(r, est.tgt[k])]])
  ELSE est
EstNear(prob, a, b, tol, ttol) ==
  LET x == Gauged(prob, a) y == Gauged(prob, b) IN
  /\ Len(x.cam) = Len(y.cam) /\ Len(x.tgt) = Len(y.tgt)
  /\ \A k \in 1..Len(x.cam) : MPNear(x.cam[k], y.cam[k], tol, ttol)
  /\ \A k \in 1..Len(x.tgt) : MPNear(x.tgt[k], y.tgt[k], tol, ttol)
=============================================================================
