--------------------------- MODULE CalibCovTrace ---------------------------
(* solved -> explained: what a calibration's covariance report says about its estimate *)
EXTENDS CalibCov
VARIABLES l, ph
vars == <<l, ph>>
T == Trace[l]
\* the estimate, with the angle-axis vectors that give its rotations
ROf(list) == Strict([k \in 1..Len(list) |-> NumV(list[k])])
Principal(r) == RLt(VSq(r), RParse("9.5"))
Stands(rs, ps) == \A k \in 1..Len(ps) : MNear(AxisAngle(rs[k]), ps[k].m, RParse("1e-12")) /\ Principal(rs[k])
Init == l \in 1..Len(Trace) /\ ph = "solved"
Lost == ph = "solved" /\ T.out.status # "ok" /\ Clause(T.id, "a determined problem was not solved: " \o T.out.status, FALSE) /\ UNCHANGED vars
Explain ==
  /\ ph = "solved" /\ T.out.status = "ok"
  /\ TRUE = (LET prob == Strict(ReadProblem(T.in))
                 est == ReadEst(T.out)
                 rc == ROf(T.out.camr)
                 rt == ROf(T.out.tgtr) IN
             /\ Clause(T.id, "harness: the rotation vectors do not stand for the estimate", Stands(rc, est.cam) /\ Stands(rt, est.tgt))
             /\ LET turns == Strict([cam |-> [k \in 1..Len(rc) |-> TurnDs(rc[k])], tgt |-> [k \in 1..Len(rt) |-> TurnDs(rt[k])]])
                    J == Jacobian(prob, est, turns)
                    n == 6 * NumPose(prob)
                    c == CovOf(J, n, [k \in 1..n |-> k], Rd40) IN
                ByName(T.id, T.out.cov, Strict(Names(prob, T.in.lab)), c, RParse("1e-5")))
  /\ Accept(T.id) /\ ph' = "end" /\ UNCHANGED l
Next == Lost \/ Explain
Spec == Init /\ [][Next]_vars
=============================================================================
