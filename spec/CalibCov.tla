------------------------------ MODULE CalibCov ------------------------------
(***************************************************************************)
(* The covariance of a calibration: the inverse of J^T J, where J holds    *)
(* the derivatives of every residual with respect to the six components    *)
(* (rx, ry, rz, x, y, z) of every estimated pose, at the returned estimate.*)
(* A pose turns by its angle-axis vector (rx, ry, rz).                     *)
(***************************************************************************)
EXTENDS Calib, Conv, CovReport

Hd == RParse("1e-12")
Rd30(x) == RRound(x, Grid30)
Bump(r, k, h) == [r EXCEPT ![k] = RAdd(@, h)]
\* derivative of the rotation with respect to component k of r (central difference, error about 1e-24)
TurnD(r, k) == LET a == Strict(AxisAngle(Bump(r, k, Hd))) b == Strict(AxisAngle(Bump(r, k, RNeg(Hd)))) w == RMul(RInt(2), Hd) IN
               Strict([i \in 1..3 |-> [j \in 1..3 |-> Rd30(RDiv(RSub(a[i][j], b[i][j]), w))]])
TurnDs(r) == <<TurnD(r, 1), TurnD(r, 2), TurnD(r, 3)>>

\* change of the pixel (or of the point itself) for a change d of a point q in the camera frame
PixelD(prob, c, q, d) ==
  IF prob.dim = 3 THEN d
  ELSE LET K == prob.intr[c] zz == RSq(q[3]) IN
       << RDiv(RMul(K[1], RSub(RMul(d[1], q[3]), RMul(q[1], d[3]))), zz), RDiv(RMul(K[2], RSub(RMul(d[2], q[3]), RMul(q[2], d[3]))), zz) >>

E3(k) == [i \in 1..3 |-> IF i = k THEN ROne ELSE RZero]
\* the estimated poses in the order of the parameters: cameras, then targets
NumCam(prob) == IF prob.kind = "pnp" THEN 0 ELSE Len(prob.cam)
NumPose(prob) == NumCam(prob) + Len(prob.tgt)
\* derivatives of the point p (seen in view v) in the camera frame: a sequence of 6 * NumPose vectors
PointD(prob, est, turns, v, p) ==
  LET nc == NumCam(prob)
      zero == VZero
      mount == Strict(MPMul(MPInv(PM(v.cm)), PM(v.tm)))                 \* camera mount -> target mount
      tgt == est.tgt[TgtOf(prob.kind, v.i)]
      P == Strict(MPApply(MPMul(mount, tgt), p))                        \* the point, camera mount frame
      camRt == IF nc = 0 THEN MId ELSE Strict(MT(est.cam[v.c].m))
      W == Strict(MMul(camRt, mount.m))
      camD(k) == IF k <= 3 THEN MVec(MT(turns.cam[v.c][k]), VSub(P, est.cam[v.c].t)) ELSE VNeg(MVec(camRt, E3(k - 3)))
      tgtD(k) == IF k <= 3 THEN MVec(W, MVec(turns.tgt[TgtOf(prob.kind, v.i)][k], p)) ELSE MVec(W, E3(k - 3))
  IN Strict([n \in 1..(6 * NumPose(prob)) |->
        LET b == (n - 1) \div 6 k == ((n - 1) % 6) + 1 IN
        IF b < nc THEN (IF b + 1 = v.c THEN camD(k) ELSE zero)
        ELSE IF (b - nc) + 1 = TgtOf(prob.kind, v.i) THEN tgtD(k) ELSE zero])
FeatRows(prob, est, turns, v, f) ==
  LET d == PointD(prob, est, turns, v, f.p)
      q == Strict(MPApply(CameraToTarget(prob, est, v), f.p))
      pix == Strict([n \in 1..Len(d) |-> PixelD(prob, IF prob.kind = "pnp" THEN 1 ELSE v.c, q, d[n])])
  IN  [k \in 1..prob.dim |-> [n \in 1..Len(d) |-> Rd30(pix[n][k])]]
Jacobian(prob, est, turns) ==
  LET RECURSIVE Feats(_, _) 
      Feats(v, i) == IF i = 0 THEN <<>> ELSE Feats(v, i - 1) \o FeatRows(prob, est, turns, v, v.feats[i])
      RECURSIVE Views(_)
      Views(k) == IF k = 0 THEN <<>> ELSE Views(k - 1) \o Feats(prob.views[k], Len(prob.views[k].feats))
  IN Strict(Views(Len(prob.views)))

Axes == <<"rx", "ry", "rz", "x", "y", "z">>
\* labels: [cam, tgt] as given to the solver
Names(prob, lab) == [n \in 1..(6 * NumPose(prob)) |->
   LET b == (n - 1) \div 6 IN
   (IF b < NumCam(prob) THEN lab.cam \o (IF prob.kind = "ms_wrist" THEN ToString(b) ELSE "") ELSE lab.tgt) \o "_" \o Axes[((n - 1) % 6) + 1]]

\* a report whose entries may come in any order
ByName(id, o, names, c0, tol) ==
  LET c == Strict(c0) IN
  /\ Clause(id, "every free parameter exactly once, under its own name",
            Len(o.sd) = Len(names) /\ \A n \in 1..Len(names) : Cardinality({i \in 1..Len(o.sd) : o.sd[i].a = names[n]}) = 1)
  /\ LET at == Strict([i \in 1..Len(names) |-> CHOOSE n \in 1..Len(names) : names[n] = o.sd[i].a]) IN
     Faithful(id, o, Strict([i \in 1..Len(names) |-> names[at[i]]]),
              Strict([i \in 1..Len(names) |-> [k \in 1..Len(names) |-> c[at[i]][at[k]]]]), tol)
=============================================================================
