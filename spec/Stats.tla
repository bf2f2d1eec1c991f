------------------------------- MODULE Stats --------------------------------
(* Means, deviations and angles of turns. *)
EXTENDS Geom
Mean(xs) == RDiv(RSum(xs), RInt(Len(xs)))
\* population deviation
Var(xs) == LET m == Strict(Mean(xs)) IN Mean(Strict([i \in 1..Len(xs) |-> RSq(RSub(xs[i], m))]))
Dev(xs) == RSqrt(Var(xs))
\* chord of a turn: twice the sine of half its angle
Chord(m) == RSqrt(RMax(RZero, RSub(RInt(3), RAdd(m[1][1], RAdd(m[2][2], m[3][3])))))
ChordOf(a) == RMul(RInt(2), RAbs(RSin(RDiv(a, RInt(2)))))
\* the angle, 0 to pi, with a given chord: the root of ChordOf, by bisection
Angle(chord) == LET RECURSIVE B(_, _, _) 
                    B(lo, hi, n) == IF n = 0 THEN lo ELSE LET mid == Strict(RRound(RDiv(RAdd(lo, hi), RInt(2)), Grid18)) IN IF RLe(ChordOf(mid), chord) THEN B(mid, hi, n - 1) ELSE B(lo, mid, n - 1)
                IN B(RZero, RParse("3.14159265358979323846"), 44)
\* squared chord of the turn between two (unnormalised) quaternions
Dot4(a, b) == RDot(a, b)
QChord(a, b) == RMul(RInt(2), RSqrt(RMax(RZero, RRound(RSub(ROne, RDiv(RSq(Dot4(a, b)), RMul(QSq(a), QSq(b)))), Grid24))))
\* angle = 2 asin(chord/2); |a.b| = cos(angle/2)
QAngle(a, b) == Angle(QChord(a, b))
\* the sum of q q^T over unit quaternions, and the average orientation of Markley et al: its dominant eigenvector
Outer(q) == LET n == Strict(QSq(q)) IN [i \in 1..4 |-> [j \in 1..4 |-> RDiv(RMul(q[i], q[j]), n)]]
RECURSIVE Moment(_, _)
Moment(qs, k) == IF k = 0 THEN [i \in 1..4 |-> [j \in 1..4 |-> RZero]]
                 ELSE LET r == Strict(Moment(qs, k - 1)) o == Strict(Outer(qs[k])) IN Strict([i \in 1..4 |-> [j \in 1..4 |-> RRound(RAdd(r[i][j], o[i][j]), Grid30)]])
MVec4(m, v) == Strict([i \in 1..4 |-> RDot(m[i], v)])
\* symmetric m has no eigenvalue above b: the pivots of b - m are positive
RECURSIVE Pivots(_, _)
Pivots(a, n) == IF n = 0 THEN TRUE
                ELSE /\ RLt(RZero, a[n][n])
                     /\ Pivots(Strict([i \in 1..(n-1) |-> [j \in 1..(n-1) |-> RSub(a[i][j], RDiv(RMul(a[i][n], a[n][j]), a[n][n]))]]), n - 1)
NoneAbove(m, b) == Pivots(Strict([i \in 1..4 |-> [j \in 1..4 |-> IF i = j THEN RSub(b, m[i][j]) ELSE RNeg(m[i][j])]]), 4)
IsMean(q, qs, tol) == LET m == Strict(Moment(qs, Len(qs))) v == Strict(MVec4(m, q)) s == Strict(RDiv(RDot(q, v), QSq(q))) IN
   /\ \A i \in 1..4 : RNear(v[i], RMul(s, q[i]), tol)
   /\ NoneAbove(m, RAdd(s, tol))
=============================================================================
