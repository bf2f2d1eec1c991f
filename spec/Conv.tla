-------------------------------- MODULE Conv --------------------------------
(***************************************************************************)
(* Six-parameter poses (angle-axis r and translation), quaternion steps,   *)
(* and equality of values "to within the documented precision".            *)
(***************************************************************************)
EXTENDS Geom
VCross(r) == << <<RZero, RNeg(r[3]), r[2]>>, <<r[3], RZero, RNeg(r[1])>>, <<RNeg(r[2]), r[1], RZero>> >>
MAdd(a, b) == << VAdd(a[1], b[1]), VAdd(a[2], b[2]), VAdd(a[3], b[3]) >>
MScale(k, a) == << VScale(k, a[1]), VScale(k, a[2]), VScale(k, a[3]) >>
\* Rodrigues' formula
AxisAngle(r) == LET s == VSq(r) x == Strict(VCross(r)) IN Strict(MAdd(MId, MAdd(MScale(RSincS(s), x), MScale(RVersS(s), MMul(x, x)))))
SixPose(r, t) == [m |-> AxisAngle(r), t |-> t]
\* the quaternion step of half-angle vector d: (cos|d|, d sin|d|/|d|) * q
QStep(q, d) == LET s == VSq(d) k == RSincS(s) IN QMul(<<RCosS(s), RMul(k, d[1]), RMul(k, d[2]), RMul(k, d[3])>>, q)

\* ---- equality: lists of numbers a, b agree to 12 digits of the smaller norm ----
SqNorm(a) == RSum([k \in 1..Len(a) |-> RSq(a[k])])
Approx(a, b) == /\ Len(a) = Len(b)
                /\ RLe(SqNorm([k \in 1..Len(a) |-> RSub(a[k], b[k])]), RMul(RParse("1e-24"), RMin(SqNorm(a), SqNorm(b))))
\* a pose is compared as its 4x4 matrix
PoseNums(p) == LET m == QMat(p.q) IN m[1] \o m[2] \o m[3] \o p.t \o <<ROne>>
=============================================================================
