----------------------------- MODULE SplitTrace -----------------------------
(* given -> refused | judged *)
EXTENDS Stats, TraceIO
VARIABLES l, ph
vars == <<l, ph>>
T == Trace[l]
NO == Len(T.in.obs)
\* every half whose pose was solved, in the order in which the solver was asked
Solved(s) == s.term = 0 /\ RIsNum(s.final) /\ RLe(Num(s.final), RMul(Num(T.in.thr), RInt(s.nres)))
AllSolved == \A i \in 1..Len(T.out.solves) : Solved(T.out.solves[i])
Quiet == \A i \in 1..NO : ~T.in.obs[i].noisy
Uneven == \E i, j \in 1..NO : Len(T.in.obs[i].feats) # Len(T.in.obs[j].feats)
Far(i) == LET d == ReadPose(T.in.obs[i].shift) IN RSqrt(VSq(d.t))
AngleIs(a, chord, tol) == RIsNum(a) /\ RNear(ChordOf(Num(a)), chord, tol) /\ RLe(RZero, Num(a)) /\ RLt(Num(a), RParse("3.1416"))
Tol == RParse("1e-6")
Init == l \in 1..Len(Trace) /\ ph = "given"
Lost == ph = "given" /\ T.out.status \notin {"ok", "throw"} /\ Clause(T.id, "did not return: " \o T.out.status, FALSE) /\ UNCHANGED vars
Refuse == /\ ph = "given" /\ T.out.status = "throw"
          /\ Clause(T.id, "refused observations that have to be judged (" \o T.out.what \o ")",
                    IF T.op = "splitacc" /\ (NO = 0 \/ Uneven) THEN TRUE ELSE (~Quiet \/ T.in.iters >= 0) /\ (Len(T.out.solves) > 0 => ~AllSolved))
          /\ Accept(T.id) /\ ph' = "end" /\ UNCHANGED l
Diff == /\ ph = "given" /\ T.out.status = "ok" /\ T.op = "splitdiff"
        /\ Clause(T.id, "judged a set whose pose was not solved within the threshold", AllSolved)
        /\ Clause(T.id, "malformed result", FiniteSeq(T.out.x) /\ RIsNum(T.out.pos) /\ RIsNum(T.out.ang))
        /\ TRUE = (LET x == ReadMPose(T.out.x) d == PM(ReadPose(T.in.obs[1].shift)) IN
                   /\ Clause(T.id, "not a rigid transform", IsRotation(x.m, RParse("1e-9")))
                   /\ Clause(T.id, "position error is not the distance of the reported transform", RNear(Num(T.out.pos), RSqrt(VSq(x.t)), RParse("1e-9")))
                   /\ Clause(T.id, "angle error is not the angle of the reported transform", AngleIs(T.out.ang, Chord(x.m), Tol))
                   /\ Quiet => Clause(T.id, "not the displacement between the halves", MPNear(x, d, Tol, Tol)))
        /\ Accept(T.id) /\ ph' = "end" /\ UNCHANGED l
Acc == /\ ph = "given" /\ T.out.status = "ok" /\ T.op = "splitacc"
       /\ Clause(T.id, "judged no observations", NO > 0)
       /\ Clause(T.id, "judged observations of different sizes", ~Uneven)
       /\ Clause(T.id, "judged a set whose pose was not solved within the threshold", AllSolved)
       /\ Clause(T.id, "malformed result", \A i \in 1..4 : RIsNum(T.out.stat[i]))
       /\ TRUE = (LET far == Strict([i \in 1..NO |-> Far(i)])
                      turn == Strict([i \in 1..NO |-> Angle(Chord(QMat(ReadPose(T.in.obs[i].shift).q)))])
                      is(n, e) == RNear(Num(T.out.stat[n]), e, Tol) IN
                  Quiet =>
                    /\ Clause(T.id, "mean position error", is(1, Mean(far)))
                    /\ Clause(T.id, "deviation of the position error", is(2, Dev(far)))
                    /\ Clause(T.id, "mean angle error", is(3, Mean(turn)))
                    /\ Clause(T.id, "deviation of the angle error", is(4, Dev(turn))))
       /\ Accept(T.id) /\ ph' = "end" /\ UNCHANGED l
Next == Lost \/ Refuse \/ Diff \/ Acc
Spec == Init /\ [][Next]_vars
=============================================================================
