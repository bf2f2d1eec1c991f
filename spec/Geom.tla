------------------------------- MODULE Geom --------------------------------
(***************************************************************************)
(* Rigid poses, pinhole projection and feature cost over exact rationals.  *)
(* A pose is [q |-> unnormalised quaternion <<w, x, y, z>>, t |-> <<x, y,  *)
(* z>>]: q stands for the rotation q v q* / |q|^2, so every pose built     *)
(* from integers is exact.  A matrix pose [m |-> 3x3 rows, t |-> vector]   *)
(* is what the implementation reports.                                     *)
(***************************************************************************)
EXTENDS Rat, FiniteSets

VAdd(a, b) == <<RAdd(a[1], b[1]), RAdd(a[2], b[2]), RAdd(a[3], b[3])>>
VSub(a, b) == <<RSub(a[1], b[1]), RSub(a[2], b[2]), RSub(a[3], b[3])>>
VNeg(a) == <<RNeg(a[1]), RNeg(a[2]), RNeg(a[3])>>
VScale(k, a) == <<RMul(k, a[1]), RMul(k, a[2]), RMul(k, a[3])>>
VDot(a, b) == RDot(a, b)
VSq(a) == VDot(a, a)
VZero == <<RZero, RZero, RZero>>
VInt(x, y, z) == <<RInt(x), RInt(y), RInt(z)>>
Cross(a, b) == << RSub(RMul(a[2], b[3]), RMul(a[3], b[2])),
                  RSub(RMul(a[3], b[1]), RMul(a[1], b[3])),
                  RSub(RMul(a[1], b[2]), RMul(a[2], b[1])) >>

MVec(m, v) == <<VDot(m[1], v), VDot(m[2], v), VDot(m[3], v)>>
MT(m) == << <<m[1][1], m[2][1], m[3][1]>>, <<m[1][2], m[2][2], m[3][2]>>, <<m[1][3], m[2][3], m[3][3]>> >>
MMul(a, b) == LET c == Strict(MT(b)) IN
   << <<VDot(a[1], c[1]), VDot(a[1], c[2]), VDot(a[1], c[3])>>,
      <<VDot(a[2], c[1]), VDot(a[2], c[2]), VDot(a[2], c[3])>>,
      <<VDot(a[3], c[1]), VDot(a[3], c[2]), VDot(a[3], c[3])>> >>
MId == << VInt(1,0,0), VInt(0,1,0), VInt(0,0,1) >>
MDet(m) == VDot(m[1], Cross(m[2], m[3]))

QSq(q) == RAdd(RAdd(RSq(q[1]), RSq(q[2])), RAdd(RSq(q[3]), RSq(q[4])))
QMul(a, b) ==
  << RSub(RSub(RMul(a[1], b[1]), RMul(a[2], b[2])), RAdd(RMul(a[3], b[3]), RMul(a[4], b[4]))),
     RAdd(RAdd(RMul(a[1], b[2]), RMul(a[2], b[1])), RSub(RMul(a[3], b[4]), RMul(a[4], b[3]))),
     RAdd(RSub(RMul(a[1], b[3]), RMul(a[2], b[4])), RAdd(RMul(a[3], b[1]), RMul(a[4], b[2]))),
     RAdd(RAdd(RMul(a[1], b[4]), RMul(a[2], b[3])), RSub(RMul(a[4], b[1]), RMul(a[3], b[2]))) >>
QConj(q) == <<q[1], RNeg(q[2]), RNeg(q[3]), RNeg(q[4])>>
QInt(w, x, y, z) == <<RInt(w), RInt(x), RInt(y), RInt(z)>>
QId == QInt(1, 0, 0, 0)
QMat(q) ==
  LET n == QSq(q) w == q[1] x == q[2] y == q[3] z == q[4]
      two == RDiv(RInt(2), n)
      xx == RMul(two, RSq(x)) yy == RMul(two, RSq(y)) zz == RMul(two, RSq(z))
      xy == RMul(two, RMul(x, y)) xz == RMul(two, RMul(x, z)) yz == RMul(two, RMul(y, z))
      wx == RMul(two, RMul(w, x)) wy == RMul(two, RMul(w, y)) wz == RMul(two, RMul(w, z))
  IN Strict(
     << <<RSub(ROne, RAdd(yy, zz)), RSub(xy, wz), RAdd(xz, wy)>>,
        <<RAdd(xy, wz), RSub(ROne, RAdd(xx, zz)), RSub(yz, wx)>>,
        <<RSub(xz, wy), RAdd(yz, wx), RSub(ROne, RAdd(xx, yy))>> >>)

Pose(q, t) == [q |-> q, t |-> t]
PId == Pose(QId, VZero)
\* the matrix form of a pose
PM(p) == [m |-> QMat(p.q), t |-> p.t]
PMul(a, b) == Strict([q |-> QMul(a.q, b.q), t |-> VAdd(a.t, MVec(QMat(a.q), b.t))])
PInv(a) == LET r == QConj(a.q) IN Strict([q |-> r, t |-> VNeg(MVec(QMat(r), a.t))])
PApply(a, v) == VAdd(a.t, MVec(QMat(a.q), v))
PEq(a, b) == PM(a) = PM(b)

MPMul(a, b) == Strict([m |-> MMul(a.m, b.m), t |-> VAdd(a.t, MVec(a.m, b.t))])
MPInv(a) == LET r == Strict(MT(a.m)) IN Strict([m |-> r, t |-> VNeg(MVec(r, a.t))])
MPApply(a, v) == VAdd(a.t, MVec(a.m, v))
MPId == [m |-> MId, t |-> VZero]

\* largest entrywise difference of two matrix poses is within tol (rotation) and ttol (translation)
VNear(a, b, tol) == \A i \in 1..3 : RNear(a[i], b[i], tol)
MNear(a, b, tol) == \A i \in 1..3 : VNear(a[i], b[i], tol)
MPNear(a, b, tol, ttol) == MNear(a.m, b.m, tol) /\ VNear(a.t, b.t, ttol)
\* a reported matrix is a rotation: orthonormal, right-handed
IsRotation(m, tol) == MNear(MMul(m, MT(m)), MId, tol) /\ RNear(MDet(m), ROne, tol)

(***************************************************************************)
(* Pinhole camera: intrinsics are [fx, fy, cx, cy].  A point in the plane  *)
(* of the camera centre is projected without division, as the library      *)
(* documents.                                                              *)
(***************************************************************************)
Project(k, p) == IF RSgn(p[3]) = 0
                 THEN << RAdd(RMul(k[1], p[1]), k[3]), RAdd(RMul(k[2], p[2]), k[4]) >>
                 ELSE << RAdd(RMul(k[1], RDiv(p[1], p[3])), k[3]), RAdd(RMul(k[2], RDiv(p[2], p[3])), k[4]) >>

\* ---- numbers read from a case or a trace ----
Num(s) == RParse(s)
NumV(v) == Strict([i \in 1..Len(v) |-> RParse(v[i])])
ReadPose(j) == Strict([q |-> NumV(j.q), t |-> NumV(j.t)])
\* twelve numbers, row by row: [r11 r12 r13 t1 ...]
ReadMPose(s) == LET n == NumV(s) IN
   Strict([m |-> << <<n[1], n[2], n[3]>>, <<n[5], n[6], n[7]>>, <<n[9], n[10], n[11]>> >>, t |-> <<n[4], n[8], n[12]>>])
FiniteSeq(s) == \A i \in 1..Len(s) : RIsNum(s[i])
PoseJson(p) == [q |-> p.q, t |-> p.t]
TolNum(s) == RParse(s)
Grid18 == RParse("1000000000000000000")
Grid24 == RParse("1000000000000000000000000")
Grid30 == RParse("1000000000000000000000000000000")
=============================================================================
