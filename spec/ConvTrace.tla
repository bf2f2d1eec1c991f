----------------------------- MODULE ConvTrace ------------------------------
(* given -> answered: conversions and comparisons. *)
EXTENDS Conv, TraceIO
VARIABLES l, ph
vars == <<l, ph>>
T == Trace[l]
Tol == RParse("1e-11")
Six(v) == LET n == NumV(v) IN [r |-> <<n[1], n[2], n[3]>>, t |-> <<n[4], n[5], n[6]>>]
PoseIs(o, e) == FiniteSeq(o) /\ MPNear(ReadMPose(o), e, Tol, RMul(Tol, RInt(50)))
PtIs(o, e) == FiniteSeq(o) /\ \A i \in 1..3 : RNear(Num(o[i]), e[i], RMul(Tol, RInt(100)))
SixIs(o, e) == FiniteSeq(o) /\ Len(o) = 6 /\ LET s == Six(o) IN MPNear(SixPose(s.r, s.t), e, Tol, RMul(Tol, RInt(50)))
Total(i) == LET RECURSIVE P(_) 
                P(k) == IF k = 0 THEN MPId ELSE MPMul(P(k - 1), PM(ReadPose(T.in.chain[k])))
            IN  P(i)
Init == l \in 1..Len(Trace) /\ ph = "given"
Lost == ph = "given" /\ T.out.status # "ok" /\ Clause(T.id, "did not return: " \o T.out.status, FALSE) /\ UNCHANGED vars
Answered == ph = "given" /\ T.out.status = "ok" /\ ph' = "answered" /\ UNCHANGED l
Convert ==
  /\ ph = "answered" /\ T.op = "convert"
  /\ \A i \in 1..Len(T.in.chain) :
       LET p == Strict(PM(ReadPose(T.in.chain[i]))) tot == Strict(Total(i)) v == NumV(T.in.v) o == T.out.steps[i] IN
       /\ Clause(T.id, "six-parameter form is another pose", SixIs(o.six, p))
       /\ Clause(T.id, "there and back is another pose", PoseIs(o.back, p))
       /\ Clause(T.id, "there, back and there is another pose", SixIs(o.six2, p))
       /\ Clause(T.id, "composition of converted poses", PoseIs(o.total, tot))
       /\ Clause(T.id, "six-parameter form of the composition", SixIs(o.totalsix, tot))
       /\ Clause(T.id, "a point transformed in matrix form", PtIs(o.pm, MPApply(p, v)))
       /\ Clause(T.id, "a point transformed in six-parameter form", PtIs(o.p6, MPApply(p, v)) /\ PtIs(o.p6b, MPApply(p, v)) /\ PtIs(o.p6j, MPApply(p, v)))
       /\ Clause(T.id, "a point transformed back in six-parameter form", PtIs(o.inv, MPApply(MPInv(p), v)))
  /\ Accept(T.id) /\ ph' = "end" /\ UNCHANGED l
SixVec ==
  /\ ph = "answered" /\ T.op = "sixvec"
  /\ TRUE = (LET p == SixPose(NumV(T.in.r), NumV(T.in.t)) v == NumV(T.in.v) IN
             /\ Clause(T.id, "pose of a six-vector", PoseIs(T.out.pose, p))
             /\ Clause(T.id, "its six-parameter form", SixIs(T.out.six, p))
             /\ Clause(T.id, "its pose again", PoseIs(T.out.back, p))
             /\ Clause(T.id, "a point moved by a six-vector", PtIs(T.out.p6, MPApply(p, v)) /\ PtIs(T.out.pm, MPApply(p, v)))
             /\ Clause(T.id, "a point moved back by a six-vector", PtIs(T.out.inv, MPApply(MPInv(p), v))))
  /\ Accept(T.id) /\ ph' = "end" /\ UNCHANGED l
Quat ==
  /\ ph = "answered" /\ T.op = "quat"
  /\ TRUE = (LET q == NumV(T.in.q) n == RSqrt(QSq(q)) e == QStep([k \in 1..4 |-> RDiv(q[k], n)], NumV(T.in.d)) IN
             Clause(T.id, "quaternion step", FiniteSeq(T.out.q) /\ \A k \in 1..4 : RNear(Num(T.out.q[k]), e[k], RParse("1e-12"))))
  /\ Accept(T.id) /\ ph' = "end" /\ UNCHANGED l
\* ---- equality, part by part ----
PEqual(a, b) == Approx(PoseNums(ReadPose(a)), PoseNums(ReadPose(b)))
NEqual(a, b) == Approx(NumV(a), NumV(b))
FEqual(a, b) == NEqual(a.o, b.o) /\ NEqual(a.p, b.p)
FsEqual(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : FEqual(a[k], b[k])
VEqual(a, b) == PEqual(a.cm, b.cm) /\ PEqual(a.tm, b.tm) /\ FsEqual(a.feats, b.feats)
IEqual(a, b) == NumV(a) = NumV(b)
Equal(ty, a, b) ==
  CASE ty = "intr" -> IEqual(a.intr, b.intr)
    [] ty \in {"corr2", "corr3"} -> FEqual(a.feat, b.feat)
    [] ty \in {"obs2", "obs3"} -> VEqual(a, b)
    [] ty \in {"kin2", "kin3"} -> NEqual(a.cj, b.cj) /\ NEqual(a.tj, b.tj) /\ FsEqual(a.feats, b.feats)
    [] ty = "meas" -> NEqual(a.cj, b.cj) /\ NEqual(a.tj, b.tj) /\ PEqual(a.x, b.x)
    [] OTHER -> /\ ty = "hep2" => IEqual(a.intr, b.intr)
                /\ PEqual(a.cam, b.cam) /\ PEqual(a.tgt, b.tgt)
                /\ Len(a.obs) = Len(b.obs) /\ \A k \in 1..Len(a.obs) : VEqual(a.obs[k], b.obs[k])
Compare ==
  /\ ph = "answered" /\ T.op = "eq"
  /\ Clause(T.id, "a value differs from itself", T.out.aa /\ T.out.bb)
  /\ Clause(T.id, "equality is not symmetric", T.out.ab = T.out.ba)
  /\ Clause(T.id, "different values compare equal", Equal(T.in.type, T.in.a, T.in.b) \/ ~T.out.ab)
  /\ Clause(T.id, "equal values compare different", ~Equal(T.in.type, T.in.a, T.in.b) \/ T.out.ab)
  /\ Accept(T.id) /\ ph' = "end" /\ UNCHANGED l
Next == Lost \/ Answered \/ Convert \/ SixVec \/ Quat \/ Compare
Spec == Init /\ [][Next]_vars
=============================================================================
