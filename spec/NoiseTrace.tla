----------------------------- MODULE NoiseTrace -----------------------------
(* gathered -> summarised: the statistics of what was solved. *)
EXTENDS Stats, TraceIO
VARIABLES l, ph
vars == <<l, ph>>
T == Trace[l]
NI == Len(T.in.items)
Init == l \in 1..Len(Trace) /\ ph = "gathered"
Lost == ph = "gathered" /\ T.out.status # "ok" /\ Clause(T.id, "no statistics: " \o T.out.status, FALSE) /\ UNCHANGED vars
\* deviation of a number of squared angles from the mean, n - 1 degrees of freedom
AngVar(q, qs) == RDiv(RSum(Strict([i \in 1..Len(qs) |-> RSq(QAngle(q, qs[i]))])), RInt(Len(qs) - 1))
QStat(name, o, qs) ==
  /\ Clause(T.id, name \o ": mean orientation is not a unit quaternion", FiniteSeq(o.q) /\ RNear(QSq(NumV(o.q)), ROne, RParse("1e-9")))
  /\ Clause(T.id, name \o ": not the mean orientation", IsMean(NumV(o.q), qs, RParse("1e-9")))
  /\ Len(qs) >= 2 => Clause(T.id, name \o ": not the angular deviation", RIsNum(o.s) /\ RLe(RZero, Num(o.s)) /\ RNear(Num(o.s), RSqrt(AngVar(NumV(o.q), qs)), RParse("1e-6")))
Quats == /\ ph = "gathered" /\ T.out.status = "ok" /\ T.op = "quats"
         /\ TRUE = (LET qs == Strict([i \in 1..NI |-> NumV(T.in.items[i].q)]) IN QStat("given order", T.out.a, qs) /\ QStat("other order", T.out.b, qs) /\
                    Clause(T.id, "mean alone differs", FiniteSeq(T.out.mean) /\ \A i \in 1..4 : T.out.mean[i] = T.out.a.q[i]))
         /\ Accept(T.id) /\ ph' = "end" /\ UNCHANGED l
\* the problems that were solved, by the outcome of each one on its own
Good == SelectSeq(T.out.each, LAMBDA e : e.converged)
PStat(name, o, xs) ==
  \A d \in 1..3 : LET v == Strict([i \in 1..Len(xs) |-> xs[i].t[d]]) m == Strict(Mean(v)) tol == RMul(RParse("1e-7"), RAdd(ROne, RAbs(m))) IN
     /\ Clause(T.id, name \o ": not the mean position", RIsNum(o.m[d]) /\ RNear(Num(o.m[d]), m, tol))
     /\ Clause(T.id, name \o ": not the standard deviation of the position", RIsNum(o.d[d]) /\ RNear(Num(o.d[d]), Dev(v), tol))
Noise == /\ ph = "gathered" /\ T.out.status = "ok" /\ T.op # "quats"
         /\ Clause(T.id, "a problem that was cut off counts as solved", \A i \in 1..NI : T.in.items[i].cut => ~T.out.each[i].converged)
         /\ TRUE = (LET xs == Strict([i \in 1..Len(Good) |-> ReadMPose(Good[i].x)]) qs == Strict([i \in 1..Len(Good) |-> NumV(Good[i].q)]) IN
                    Len(Good) > 0 => /\ PStat("given order", T.out.a, xs) /\ PStat("other order", T.out.b, xs)
                                     /\ QStat("given order", T.out.a, qs) /\ QStat("other order", T.out.b, qs))
         /\ Accept(T.id) /\ ph' = "end" /\ UNCHANGED l
Next == Lost \/ Quats \/ Noise
Spec == Init /\ [][Next]_vars
=============================================================================
