------------------------------- MODULE KinCal -------------------------------
(***************************************************************************)
(* Kinematic calibration.  A camera rides on one kinematic chain, a target *)
(* on another; every link of both may be off by a small offset of its four *)
(* Denavit-Hartenberg parameters.  One observation is seen through         *)
(*   camera -> camera mount -> (camera chain) -> camera base               *)
(*          -> target base -> (target chain) -> target mount -> target     *)
(*                                                                         *)
(* prob: dim (2 pixels, 6 measured poses), intr, cc and tc chains          *)
(* [base, links], free parameters fc, ft (sets of <<row, column>>), the    *)
(* expected deviations csd, tsd, weight, views [cj, tj, feats | x]         *)
(* est:  cam, tgt, base matrix poses; coff, toff sequences of four offsets *)
(***************************************************************************)
EXTENDS Dh, Conv
Zeros(n) == [i \in 1..n |-> NoOffset]
Chain(c, js, offs) == Strict(Fk(c.base, c.links, js, offs))
CamSide(prob, est, v) == MPMul(Chain(prob.cc, v.cj, est.coff), est.cam)
TgtSide(prob, est, v) == MPMul(est.base, Strict(MPMul(Chain(prob.tc, v.tj, est.toff), est.tgt)))
CameraToTarget(prob, est, v) == Strict(RP(MPMul(Strict(MPInv(Strict(CamSide(prob, est, v)))), Strict(TgtSide(prob, est, v)))))

\* ---- residuals ----
PixSq(prob, X, f) == LET q == Strict(MPApply(X, f.p)) e == Strict(Project(prob.intr, q)) IN
   RRound(RAdd(RSq(RSub(e[1], f.o[1])), RSq(RSub(e[2], f.o[2]))), Grid30)
\* the angle between two rotations, in [0, pi]
Angle(a, b) == LET m == Strict(MMul(Strict(MT(a)), b)) tr == RAdd(m[1][1], RAdd(m[2][2], m[3][3]))
                   up == RMax(RZero, RSub(RInt(3), tr)) dn == RMax(RParse("1e-30"), RAdd(ROne, tr)) IN
               RMul(RInt(2), RAtan(RSqrt(RRound(RDiv(up, dn), Grid30))))
PoseSq(prob, X, x) ==
  LET e == Strict(MPMul(x, Strict(MPInv(X)))) a == RMul(prob.weight, Angle(x.m, X.m)) IN RRound(RAdd(VSq(e.t), RSq(a)), Grid30)
ViewSq(prob, est, v) == LET X == CameraToTarget(prob, est, v) IN
   IF prob.dim = 2 THEN RSum([k \in 1..Len(v.feats) |-> PixSq(prob, X, v.feats[k])]) ELSE PoseSq(prob, X, v.x)
\* offsets are expected to be zero, give or take the given deviation; nothing is expected of a chain whose offsets are all constant
Expects(free, chain) == Len(chain.links) > 0 /\ free # {}
PriorSq(free, chain, offs, sd) == IF Expects(free, chain) THEN
   RDiv(RSum([i \in 1..Len(offs) |-> RSum([k \in 1..4 |-> RSq(offs[i][k])])]), RSq(sd)) ELSE RZero
NumResiduals(prob) ==
  LET RECURSIVE S(_)
      S(i) == IF i = 0 THEN 0 ELSE S(i - 1) + (IF prob.dim = 2 THEN 2 * Len(prob.views[i].feats) ELSE 4)
  IN  S(Len(prob.views)) + (IF Expects(prob.fc, prob.cc) THEN 4 * Len(prob.cc.links) ELSE 0) + (IF Expects(prob.ft, prob.tc) THEN 4 * Len(prob.tc.links) ELSE 0)
SqTotal(prob, est) == RAdd(RSum([k \in 1..Len(prob.views) |-> ViewSq(prob, est, prob.views[k])]),
   RAdd(PriorSq(prob.fc, prob.cc, est.coff, prob.csd), PriorSq(prob.ft, prob.tc, est.toff, prob.tsd)))
CostPerObs(prob, est) == RDiv(SqTotal(prob, est), RInt(2 * NumResiduals(prob)))

\* ---- masks: a rigid pose's mask lists components 0..2; a chain's mask is a table of zeros and ones ----
FreeOf(dof, table) == {c \in (1..dof) \X (1..4) : table[c[1]][c[2]] = 0}
\* the positions of the marked entries in column-wise order
MaskIdx(table) == LET dof == Len(table) IN {(dof * (c[2] - 1)) + (c[1] - 1) : c \in {c \in (1..dof) \X (1..4) : table[c[1]][c[2]] = 1}}
SeqSet(s) == {s[i] : i \in 1..Len(s)}

\* ---- reading ----
ReadSix(j) == Strict([r |-> NumV(j.r), t |-> NumV(j.t)])
SixM(s) == Strict(RP(SixPose(s.r, s.t)))
ReadChain(j) == Strict([base |-> RP(PM(ReadPose(j.base))), links |-> [i \in 1..Len(j.links) |-> [type |-> j.links[i].type, p |-> NumV(j.links[i].p)]]])
ReadProb(j) == Strict([dim |-> j.dim, intr |-> NumV(j.intr), cc |-> ReadChain(j.cchain), tc |-> ReadChain(j.tchain),
   fc |-> FreeOf(Len(j.cchain.links), j.dhmask[1]), ft |-> FreeOf(Len(j.tchain.links), j.dhmask[2]),
   csd |-> Num(j.csd), tsd |-> Num(j.tsd), weight |-> Num(j.weight),
   views |-> [k \in 1..Len(j.views) |-> IF j.dim = 2
       THEN [cj |-> NumV(j.views[k].cj), tj |-> NumV(j.views[k].tj), feats |-> [a \in 1..Len(j.views[k].feats) |-> [o |-> NumV(j.views[k].feats[a].o), p |-> NumV(j.views[k].feats[a].p)]]]
       ELSE [cj |-> NumV(j.views[k].cj), tj |-> NumV(j.views[k].tj), x |-> ReadMPose(j.views[k].x)]]])
GuessEst(j) == Strict([cam |-> SixM(ReadSix(j.cam)), tgt |-> SixM(ReadSix(j.tgt)), base |-> SixM(ReadSix(j.base)),
   coff |-> Zeros(Len(j.cchain.links)), toff |-> Zeros(Len(j.tchain.links))])
ReadOffs(m) == Strict([i \in 1..Len(m) |-> NumV(m[i])])
=============================================================================
