----------------------------- MODULE CalibTrace -----------------------------
(***************************************************************************)
(* The life of one calibration call, checked against recorded calls:       *)
(*    given -> refused                                                     *)
(*    given -> solved -> reported                                          *)
(* A 2D hand-eye problem is refused exactly when its guess puts a feature  *)
(* at or behind the image plane; the solve starts from the guess; what is  *)
(* reported describes the estimate.                                        *)
(***************************************************************************)
EXTENDS Calib, TraceIO

CONSTANTS MODE

VARIABLES l, ph
vars == <<l, ph>>
T == Trace[l]
Prob == ReadProblem(T.in)

Tiny == RParse("1e-12")
CostTol == RParse("1e-7")
\* reported cost r against exact cost e
CostIs(r, e) == RIsNum(r) /\ RLe(RAbs(RSub(Num(r), e)), RAdd(RMul(CostTol, e), Tiny))

Behind(prob) == \E z \in AllDepths(prob, GuessEst(prob)) : RLe(z, RZero)
MustRefuse(prob) == prob.kind = "hand_eye" /\ prob.dim = 2 /\ Behind(prob)

PoseTol == RParse("1e-6")
WellFormedEst(prob) ==
  /\ Len(T.out.cam) = Len(prob.cam) /\ Len(T.out.tgt) = Len(prob.tgt)
  /\ \A k \in 1..Len(T.out.cam) : FiniteSeq(T.out.cam[k])
  /\ \A k \in 1..Len(T.out.tgt) : FiniteSeq(T.out.tgt[k])
ProperEst(est) ==
  /\ \A k \in 1..Len(est.cam) : IsRotation(est.cam[k].m, RParse("1e-9"))
  /\ \A k \in 1..Len(est.tgt) : IsRotation(est.tgt[k].m, RParse("1e-9"))

Init == l \in 1..Len(Trace) /\ ph = "given"

\* The feature put in the way contradicts the others, so the solved problem may be too flat for a covariance;
\* that is said by another exception, after the solve.
Flat == MODE = "C05" /\ T.out.status = "throw" /\ T.out.type = "rct_optimizations::CovarianceException" /\ Len(T.out.solves) = 1
SolvedFlat ==
  /\ ph = "given" /\ Flat
  /\ Clause(T.id, "accepted a guess with a feature behind the camera", ~MustRefuse(Prob))
  /\ Accept(T.id)
  /\ ph' = "end" /\ UNCHANGED l
Refuse ==
  /\ ph = "given" /\ T.out.status = "throw" /\ ~Flat
  /\ Clause(T.id, "refused a problem that has to be solved", MustRefuse(Prob))
  /\ Clause(T.id, "refused only after solving", Len(T.out.solves) = 0)
  /\ Accept(T.id)
  /\ ph' = "end" /\ UNCHANGED l

Solve ==
  /\ ph = "given" /\ T.out.status = "ok"
  /\ Clause(T.id, "accepted a guess with a feature behind the camera", ~MustRefuse(Prob))
  /\ Clause(T.id, "initial cost is not half the mean squared feature error of the guess",
            CostIs(T.out.init, CostPerObs(Prob, GuessEst(Prob))))
  /\ ph' = "solved" /\ UNCHANGED l

Crash ==
  /\ ph = "given" /\ T.out.status \notin {"ok", "throw"}
  /\ Clause(T.id, "did not return: " \o T.out.status, FALSE)
  /\ UNCHANGED vars

\* a declared-fixed camera is returned as given; the rigid rig stays rigid
FixedKept(prob, est) == prob.fix => MPNear(est.cam[1], PM(prob.cam[1]), RParse("1e-12"), RParse("1e-12"))
RigKept(prob, est) ==
  prob.kind \in {"ms_rig"} =>
    \A c \in 1..Len(est.cam) :
      MPNear(MPMul(MPInv(est.cam[1]), est.cam[c]), MPMul(MPInv(PM(prob.cam[1])), PM(prob.cam[c])), RParse("1e-10"), RParse("1e-10"))
NoWorse == RIsNum(T.out.init) /\ RIsNum(T.out.final) /\ RLe(Num(T.out.final), RMul(Num(T.out.init), RParse("1.000000001")))
\* how the last solve ended, as the solver library said it (0 is CONVERGENCE)
FlagHonest == Len(T.out.solves) > 0 => (T.out.converged <=> T.out.solves[Len(T.out.solves)].term = 0)

\* a converged estimate is a local minimum: no small step of one pose lowers the cost noticeably
Step(k) == PM(Pose(QInt(2000, IF k % 3 = 0 THEN 1 ELSE 0, IF k % 3 = 1 THEN 1 ELSE 0, IF k % 3 = 2 THEN 1 ELSE 0), VZero))
Shift(k) == PM(Pose(QId, << RFrac(IF k % 3 = 0 THEN 1 ELSE 0, 1000), RFrac(IF k % 3 = 1 THEN 1 ELSE 0, 1000), RFrac(IF k % 3 = 2 THEN 1 ELSE 0, 1000) >>))
LocalMin(prob, est, cost) ==
  LET floor == RSub(RMul(cost, RParse("0.98")), RParse("1e-9"))
      n == Len(est.tgt)
      try(s) == RLe(floor, CostPerObs(prob, [est EXCEPT !.tgt[1] = MPMul(@, s)]))
  IN \A k \in 0..2 : try(Step(k)) /\ try(MPInv(Step(k))) /\ try(Shift(k)) /\ try(MPInv(Shift(k)))

Report ==
  /\ ph = "solved"
  /\ TRUE = (LET prob == Strict(Prob) IN
             /\ Clause(T.id, "malformed estimate", WellFormedEst(prob))
             /\ LET est == ReadEst(T.out)
                    cost == Strict(CostPerObs(prob, est)) IN
                /\ Clause(T.id, "a reported pose is not a rigid transform", ProperEst(est))
                /\ Clause(T.id, "fixed camera moved", FixedKept(prob, est))
                /\ Clause(T.id, "rigid rig deformed", RigKept(prob, est))
                /\ Clause(T.id, "final cost is not the cost of the returned estimate", CostIs(T.out.final, cost))
                /\ Clause(T.id, "final cost exceeds initial cost", NoWorse)
                /\ Clause(T.id, "convergence flag contradicts the solve", FlagHonest)
                /\ MODE = "C04" => Clause(T.id, "converged away from a minimum", T.out.converged => LocalMin(prob, est, cost))
                /\ MODE \in {"C01", "C02", "C03"} =>
                     LET truth == AsEst([k \in 1..Len(T.in.tcam) |-> ReadPose(T.in.tcam[k])], [k \in 1..Len(T.in.ttgt) |-> ReadPose(T.in.ttgt[k])]) IN
                     /\ Clause(T.id, "noise-free problem did not converge", T.out.converged)
                     /\ Clause(T.id, "noise-free problem left a residual", RLe(cost, RParse("1e-9")))
                     /\ Clause(T.id, "estimate differs from the poses that made the data", EstNear(prob, est, truth, PoseTol, PoseTol)))
  /\ Accept(T.id)
  /\ ph' = "end" /\ UNCHANGED l

Next == Refuse \/ SolvedFlat \/ Solve \/ Crash \/ Report
Spec == Init /\ [][Next]_vars
=============================================================================
