------------------------------ MODULE Distort ------------------------------
(***************************************************************************)
(* A pinhole camera with lens distortion: parameters                       *)
(* <<fx, fy, cx, cy, k1, k2, p1, p2, k3>> (three radial, two tangential).  *)
(***************************************************************************)
EXTENDS Geom
\* normalised coordinates are kept to 40 digits
Grid40 == RParse("1e40")
Rd4(x) == RRound(x, Grid40)
Lens(k, x, y) ==
  LET xx == Strict(Rd4(RSq(x))) yy == Strict(Rd4(RSq(y))) two == Strict(Rd4(RMul(RInt(2), RMul(x, y))))
      r2 == Strict(RAdd(xx, yy)) r4 == Strict(Rd4(RSq(r2))) r6 == Strict(Rd4(RMul(r2, r4)))
      radial == Strict(Rd4(RAdd(ROne, RDot(<<k[5], k[6], k[9]>>, <<r2, r4, r6>>))))
  IN << Rd4(RAdd(RMul(x, radial), RDot(<<k[8], k[7]>>, <<RAdd(r2, RMul(RInt(2), xx)), two>>))),
        Rd4(RAdd(RMul(y, radial), RDot(<<k[7], k[8]>>, <<RAdd(r2, RMul(RInt(2), yy)), two>>))) >>
DProject(k, q) ==
  LET x == Strict(IF RSgn(q[3]) = 0 THEN q[1] ELSE RRound(RDiv(q[1], q[3]), Grid40))
      y == Strict(IF RSgn(q[3]) = 0 THEN q[2] ELSE RRound(RDiv(q[2], q[3]), Grid40))
      d == Strict(Lens(k, x, y))
  IN << RAdd(RMul(k[1], d[1]), k[3]), RAdd(RMul(k[2], d[2]), k[4]) >>
\* half the mean squared residual of images [feats |-> <<[o, p]>>] under poses and camera k
IntrCost(k, poses, imgs) ==
  LET sq(i, f) == LET u == Strict(DProject(k, Strict(MPApply(poses[i], f.p)))) IN RRound(RAdd(RSq(RSub(u[1], f.o[1])), RSq(RSub(u[2], f.o[2]))), Grid24)
      RECURSIVE S(_, _) 
      S(i, a) == IF i = 0 THEN RZero ELSE IF a = 0 THEN S(i - 1, IF i = 1 THEN 0 ELSE Len(imgs[i - 1])) ELSE RAdd(sq(i, imgs[i][a]), S(i, a - 1))
      RECURSIVE Cnt(_)
      Cnt(i) == IF i = 0 THEN 0 ELSE Len(imgs[i]) + Cnt(i - 1)
      n == Len(imgs)
  IN RDiv(S(n, Len(imgs[n])), RInt(4 * Cnt(n)))
=============================================================================
