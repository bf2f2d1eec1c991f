----------------------------- MODULE CircleTrace -----------------------------
(* given -> solved -> reported, for the circle fit *)
EXTENDS Circle, CovReport
CONSTANT MODE
VARIABLES l, ph
vars == <<l, ph>>
T == Trace[l]
Pts == [k \in 1..Len(T.in.pts) |-> NumV(T.in.pts[k])]
Guess == [x |-> Num(T.in.x), y |-> Num(T.in.y), r |-> Num(T.in.r)]
Truth == [x |-> Num(T.in.tx), y |-> Num(T.in.ty), r |-> Num(T.in.tr)]
CostIs(r, e) == RIsNum(r) /\ RLe(RAbs(RSub(Num(r), e)), RAdd(RMul(RParse("1e-7"), e), RParse("1e-12")))
Init == l \in 1..Len(Trace) /\ ph = "given"
Fail == /\ ph = "given" /\ T.out.status # "ok" /\ Clause(T.id, "did not return: " \o T.out.status, FALSE) /\ UNCHANGED vars
Solve == /\ ph = "given" /\ T.out.status = "ok"
         /\ Clause(T.id, "initial cost is not half the mean squared error of the guess", CostIs(T.out.init, CircleCost(Guess, Strict(Pts))))
         /\ ph' = "solved" /\ UNCHANGED l
Report ==
  /\ ph = "solved"
  /\ Clause(T.id, "estimate is not finite", RIsNum(T.out.x) /\ RIsNum(T.out.y) /\ RIsNum(T.out.r))
  /\ TRUE = (LET est == [x |-> Num(T.out.x), y |-> Num(T.out.y), r |-> Num(T.out.r)]
                 cost == Strict(CircleCost(est, Strict(Pts)))
                 tol == RMul(RParse("1e-6"), RAdd(ROne, Truth.r)) IN
             /\ Clause(T.id, "final cost is not the cost of the returned circle", CostIs(T.out.final, cost))
             /\ Clause(T.id, "final cost exceeds initial cost", RLe(Num(T.out.final), RMul(Num(T.out.init), RParse("1.000000001"))))
             /\ Clause(T.id, "negative radius", RLe(RZero, est.r))
             /\ Clause(T.id, "convergence flag contradicts the solve", Len(T.out.solves) > 0 => (T.out.converged <=> T.out.solves[Len(T.out.solves)].term = 0))
             /\ MODE = "C03" =>
                  /\ Clause(T.id, "points on a circle did not converge", T.out.converged)
                  /\ Clause(T.id, "circle differs from the one that made the points", RNear(est.x, Truth.x, tol) /\ RNear(est.y, Truth.y, tol) /\ RNear(est.r, Truth.r, tol))
             /\ MODE = "C08" =>
                  LET J == Strict([k \in 1..Len(T.in.pts) |-> LET p == NumV(T.in.pts[k]) IN
                             << RMul(RInt(2), RSub(p[1], est.x)), RMul(RInt(2), RSub(p[2], est.y)), RMul(RInt(2), est.r) >>]) IN
                  Faithful(T.id, T.out.cov, <<"x", "y", "r">>, CovOf(J, 3, <<1, 2, 3>>, Rd40), RParse("1e-6")))
  /\ Accept(T.id)
  /\ ph' = "end" /\ UNCHANGED l
Next == Fail \/ Solve \/ Report
Spec == Init /\ [][Next]_vars
=============================================================================
