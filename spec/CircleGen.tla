------------------------------ MODULE CircleGen ------------------------------
(* A circle is drawn, points are sampled on it one by one, some are disturbed *)
(* (MODE "C04"), a guess is made, and the problem is handed to the solver.    *)
EXTENDS Circle, Rnd, Json
CONSTANTS MODE, SEED, N
VARIABLES sid, phase, circle, pts, guess
vars == <<sid, phase, circle, pts, guess>>
St(s) == Mix((SEED * 7919 + s * 104729) % 2000003, s)
D(s, k, lo, hi) == lo + ((Mix(St(s), k) + Mix(St(s + 5000), k + 77)) % (hi - lo + 1))
\* the point of the unit circle with half-angle tangent t
OnUnit(t) == LET d == RAdd(ROne, RSq(t)) IN << RDiv(RSub(ROne, RSq(t)), d), RDiv(RMul(RInt(2), t), d) >>
Turn(n, u) == CASE n = 0 -> u [] n = 1 -> <<RNeg(u[2]), u[1]>> [] n = 2 -> <<RNeg(u[1]), RNeg(u[2])>> [] OTHER -> <<u[2], RNeg(u[1])>>
NPts(s) == D(s, 1, 3, 10)
Init == sid \in 1..N /\ phase = "start" /\ circle = <<>> /\ pts = <<>> /\ guess = <<>>
Draw1 == /\ phase = "start"
         /\ circle' = [x |-> RFrac(D(sid, 2, -60, 60), 20), y |-> RFrac(D(sid, 3, -60, 60), 20), r |-> RFrac(D(sid, 4, 6, 50), 20)]
         /\ phase' = "points" /\ UNCHANGED <<sid, pts, guess>>
Shifted(d, p) == << RAdd(p[1], d), RSub(p[2], d) >>
\* points go round the circle, three quarters of a turn apart in order of sampling
PointAt(k) == LET u == Turn((k + D(sid, 6, 0, 3)) % 4, OnUnit(RFrac(D(sid, 20 + k, -8, 8), 20)))
                  noise == IF MODE \in {"C04", "C08"} THEN <<RFrac(D(sid, 60 + k, -20, 20), 100), RFrac(D(sid, 80 + k, -20, 20), 100)>> ELSE <<RZero, RZero>>
                  far == IF MODE = "C04" /\ D(sid, 12, 0, 2) = 0 /\ k = D(sid, 13, 1, NPts(sid)) THEN RInt(D(sid, 14, 2, 12)) ELSE RZero
              IN Shifted(far, << RAdd(RAdd(circle.x, RMul(circle.r, u[1])), noise[1]), RAdd(RAdd(circle.y, RMul(circle.r, u[2])), noise[2]) >>)
Sample == /\ phase = "points"
          /\ pts' = Append(pts, Strict(PointAt(Len(pts) + 1)))
          /\ phase' = IF Len(pts') < NPts(sid) THEN "points" ELSE "guess"
          /\ UNCHANGED <<sid, circle, guess>>
Guess == /\ phase = "guess"
         /\ guess' = CASE D(sid, 15, 0, 5) = 0 -> LET p == pts[D(sid, 16, 1, Len(pts))] IN   \* the guess's centre on one of the points
                       [x |-> p[1], y |-> p[2], r |-> RMul(circle.r, RFrac(D(sid, 9, 16, 25), 20))]
                     [] D(sid, 15, 0, 5) = 1 ->   \* far away
                       [x |-> RAdd(circle.x, RMul(circle.r, RFrac(D(sid, 7, -50, 50), 20))),
                        y |-> RAdd(circle.y, RMul(circle.r, RFrac(D(sid, 8, -50, 50), 20))), r |-> RMul(circle.r, RFrac(D(sid, 9, 10, 40), 20))]
                     [] OTHER ->
                     [x |-> RAdd(circle.x, RMul(circle.r, RFrac(D(sid, 7, -5, 5), 20))),
                      y |-> RAdd(circle.y, RMul(circle.r, RFrac(D(sid, 8, -5, 5), 20))),
                      r |-> RMul(circle.r, RFrac(D(sid, 9, 16, 25), 20))]
         /\ phase' = "ready" /\ UNCHANGED <<sid, circle, pts>>
Dec(v) == [k \in 1..Len(v) |-> RDec(v[k])]
Case == [id |-> MODE \o "-circle-" \o ToString(sid), op |-> "circle", pts |-> [k \in 1..Len(pts) |-> Dec(pts[k])],
         x |-> RDec(guess.x), y |-> RDec(guess.y), r |-> RDec(guess.r),
         tx |-> RDec(circle.x), ty |-> RDec(circle.y), tr |-> RDec(circle.r),
         iters |-> IF MODE = "C04" THEN (CASE D(sid, 10, 0, 5) = 0 -> 1 [] D(sid, 10, 0, 5) = 1 -> 2 [] D(sid, 10, 0, 5) = 2 -> 0 [] OTHER -> -1) ELSE -1]
Emit == phase = "ready" /\ PrintT("CASE " \o ToJson(Case)) /\ phase' = "done" /\ UNCHANGED <<sid, circle, pts, guess>>
Next == Draw1 \/ Sample \/ Guess \/ Emit
Spec == Init /\ [][Next]_vars
\* every sampled point lies on the circle, so the circle itself has no cost, and shifting everything changes nothing
OnCircle == MODE \notin {"C04", "C08"} => \A k \in 1..Len(pts) : CircleErr(circle, pts[k]) = RZero
Translated == phase = "ready" =>
   LET d == RFrac(D(sid, 11, -40, 40), 20)
       mv == [k \in 1..Len(pts) |-> <<RAdd(pts[k][1], d), RSub(pts[k][2], d)>>]
   IN  CircleCost(guess, pts) = CircleCost([guess EXCEPT !.x = RAdd(@, d), !.y = RSub(@, d)], mv)
=============================================================================
