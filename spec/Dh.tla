--------------------------------- MODULE Dh ---------------------------------
(***************************************************************************)
(* Kinematic chains in classical Denavit-Hartenberg form.  A link is       *)
(* [type, p |-> <<d, theta, r, alpha>>]; its transform for joint value j   *)
(* and offsets o is Tz(d) Rz(theta) Tx(r) Rx(alpha) with the joint value   *)
(* added to d (LINEAR, "0") or theta (REVOLUTE, "1").                      *)
(***************************************************************************)
EXTENDS Geom
R30(x) == RRound(x, Grid30)
RM(m) == Strict(<< <<R30(m[1][1]), R30(m[1][2]), R30(m[1][3])>>, <<R30(m[2][1]), R30(m[2][2]), R30(m[2][3])>>, <<R30(m[3][1]), R30(m[3][2]), R30(m[3][3])>> >>)
RP(x) == Strict([m |-> RM(x.m), t |-> <<R30(x.t[1]), R30(x.t[2]), R30(x.t[3])>>])
\* an angle brought near zero, so that the series stays short
TwoPi == RParse("6.28318530717958647692528676655900576839433879875021")
Wrap(a) == RSub(a, RMul(TwoPi, RInt(RFloor(RAdd(RDiv(a, TwoPi), RFrac(1, 2))))))
Cs(a) == RCos(Strict(Wrap(a)))
Sn(a) == RSin(Strict(Wrap(a)))
Link(type, p, j, o) ==
  LET d == RAdd(RAdd(p[1], o[1]), IF type = "0" THEN j ELSE RZero)
      th == Strict(RAdd(RAdd(p[2], o[2]), IF type = "1" THEN j ELSE RZero))
      r == RAdd(p[3], o[3])
      al == Strict(RAdd(p[4], o[4]))
      ct == R30(Cs(th)) st == R30(Sn(th)) ca == R30(Cs(al)) sa == R30(Sn(al))
  IN  Strict([m |-> << << ct, RNeg(RMul(st, ca)), RMul(st, sa) >>, << st, RMul(ct, ca), RNeg(RMul(ct, sa)) >>, << RZero, sa, ca >> >>,
              t |-> << RMul(r, ct), RMul(r, st), d >>])
NoOffset == << RZero, RZero, RZero, RZero >>
RECURSIVE Fk(_, _, _, _)
\* pose of link n: base, links, joint values, offsets
Fk(base, links, js, os) == IF js = <<>> THEN base
   ELSE LET n == Len(js) before == Strict(Fk(base, links, SubSeq(js, 1, n - 1), os)) IN RP(MPMul(before, Link(links[n].type, links[n].p, js[n], os[n])))
=============================================================================
