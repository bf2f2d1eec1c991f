------------------------------- MODULE GridGen ------------------------------
(* A circle grid is put before a camera, at any turn, upright or not; now   *)
(* and then a circle of it is covered, or discs that are no part of it lie  *)
(* at a distance.                                                           *)
EXTENDS Grid, Draws
VARIABLES sid, phase, tgt, view, dots, next
vars == <<sid, phase, tgt, view, dots, next>>
W == 800
H == 700
DrawTarget(s) == Strict([kind |-> "circle", rows |-> (IF C(s, 4, 6) THEN 1 ELSE D(s, 1, 2, 9)), cols |-> (IF C(s, 5, 6) THEN 1 ELSE D(s, 2, 2, 9)), a |-> RFrac(D(s, 3, 10, 100), 1000), b |-> RZero, dict |-> 0, first |-> 0])
\* radius of a dot and of the large dot, in spacings
Small(s) == F(s, 10, 24, 32, 100)
Large(s) == RMul(Small(s), F(s, 11, 130, 160, 100))
DrawView(s, t) ==
  LET f == RInt(D(s, 30, 700, 1200)) k == << f, RAdd(f, RInt(D(s, 31, -10, 10))), RInt(D(s, 32, 380, 420)), RInt(D(s, 33, 330, 370)) >>
      \* camera looks at the front of the target, turned in its plane
      roll == IF C(s, 34, 30) THEN PickD(s, 35, << QId, QInt(1, 0, 0, 1), QInt(0, 0, 0, 1), QInt(1, 0, 0, -1) >>) ELSE QInt(D(s, 35, -6, 6), 0, 0, D(s, 36, 1, 6))
      big == D(s, 37, 0, 4) tilt == QInt(10, D(s, 38, -big, big), D(s, 39, -big, big), 0)
      q == QMul(tilt, QMul(roll, QInt(0, 1, 0, 0)))
      n == LET m == IF t.rows > t.cols THEN t.rows ELSE t.cols IN IF m < 7 THEN 7 ELSE m
      \* pixels from circle to circle
      px == RDiv(RInt(D(s, 40, 400, 480)), RInt(n))
      z == RDiv(RMul(f, t.a), px)
      mid == << RDiv(RMul(RInt(t.cols - 1), t.a), RInt(2)), RDiv(RMul(RInt(t.rows - 1), t.a), RInt(2)), RZero >>
      c == << RMul(RDiv(RSub(RInt(400 + D(s, 41, -20, 20)), k[3]), f), z), RMul(RDiv(RSub(RInt(350 + D(s, 42, -20, 20)), k[4]), k[2]), z), z >>
  IN Strict([k |-> k, pose |-> [q |-> q, t |-> VSub(c, MVec(QMat(q), mid))]])
MP == PM(view.pose)

Covers(s) == C(s, 50, 20)
\* one circle, the large one, a row, a column or some circles
Covered(s, t) == IF ~Covers(s) THEN {} ELSE LET n == Count(t) IN
  CASE C(s, 52, 25) -> {Origin(t)} [] C(s, 53, 15) -> LET r == D(s, 51, 0, t.rows - 1) IN {id \in Ids(t) : RowOf(t, id) = r}
    [] C(s, 54, 15) -> LET k == D(s, 51, 0, t.cols - 1) IN {id \in Ids(t) : ColOf(t, id) = k} [] C(s, 55, 20) -> {D(s, 51, 0, n - 1), D(s, 49, 0, n - 1), D(s, 48, 0, n - 1)} [] OTHER -> {D(s, 51, 0, n - 1)}
\* discs that are no part of the grid, to the right of it or below it
Clutter(s, t) == [i \in 1..(IF C(s, 55, 30) /\ ~Covers(s) THEN D(s, 56, 1, 3) ELSE 0) |->
   LET right == C(s, 57 + i, 50) far == RMul(t.a, F(s, 60 + i, 25, 40, 10)) along == RMul(t.a, RInt(D(s, 64 + i, 0, 2) * 3)) IN
   [id |-> -i, x |-> IF right THEN RAdd(RMul(RInt(t.cols - 1), t.a), far) ELSE along, y |-> IF right THEN along ELSE RNeg(far), r |-> RMul(t.a, RMul(Small(s), F(s, 68 + i, 6, 16, 10)))]]
Dot(id, x, y, r) == [id |-> id, x |-> x, y |-> y, r |-> r]
Init == sid \in 1..N /\ phase = "start" /\ tgt = <<>> /\ view = <<>> /\ dots = <<>> /\ next = 0
Choose == /\ phase = "start" /\ tgt' = DrawTarget(sid) /\ view' = DrawView(sid, tgt') /\ phase' = "print" /\ UNCHANGED <<sid, dots, next>>
PrintDot == /\ phase = "print" /\ next < Count(tgt)
         /\ dots' = (LET p == Points(tgt, next)[1] IN IF next \in Covered(sid, tgt) THEN dots ELSE Append(dots, Dot(next, p[1], p[2], RMul(tgt.a, IF next = Origin(tgt) THEN Large(sid) ELSE Small(sid)))))
         /\ next' = next + 1 /\ UNCHANGED <<sid, phase, tgt, view>>
Pose0 == DecPose(view.pose)
DotIn(d) == LET e == RMul(d.r, RFrac(11, 10)) ps == << Pt(RSub(d.x, e), d.y), Pt(RAdd(d.x, e), d.y), Pt(d.x, RSub(d.y, e)), Pt(d.x, RAdd(d.y, e)) >> us == PxAll(view.k, MP, ps) IN
   Ahead(MP, ps) = TRUE /\ InPicture(us, W, H, 6) = TRUE
Printed == /\ phase = "print" /\ next = Count(tgt) /\ phase' = "ready"
           /\ dots' = (LET cl == Clutter(sid, tgt) IN dots \o SelectSeq(cl, LAMBDA d : DotIn(d) /\ \A j \in 1..Len(cl) : cl[j].id <= d.id \/ RLt(RMul(RInt(2), tgt.a), RMax(RAbs(RSub(d.x, cl[j].x)), RAbs(RSub(d.y, cl[j].y))))))
           /\ UNCHANGED <<sid, tgt, view, next>>
Visible == \A i \in 1..Len(dots) : LET d == dots[i] e == RMul(d.r, RFrac(11, 10)) ps == << Pt(RSub(d.x, e), d.y), Pt(RAdd(d.x, e), d.y), Pt(d.x, RSub(d.y, e)), Pt(d.x, RAdd(d.y, e)) >> us == PxAll(view.k, MP, ps) IN
              Ahead(MP, ps) = TRUE /\ InPicture(us, W, H, 6) = TRUE /\ RLe(RInt(20 * 20), MinOf(<< Dist2(us[1], us[2]), Dist2(us[3], us[4]) >>)) = TRUE
DJson(d) == [id |-> d.id, x |-> RDec(d.x), y |-> RDec(d.y), r |-> RDec(d.r)]
Case == [id |-> "C17-" \o ToString(tgt.rows) \o "x" \o ToString(tgt.cols) \o "-" \o ToString(sid), op |-> "circlegrid",
   t |-> [kind |-> tgt.kind, rows |-> tgt.rows, cols |-> tgt.cols, a |-> RDec(tgt.a), b |-> "0", dict |-> 0, first |-> 0], intr |-> Dec(view.k), pose |-> DecPose(view.pose), w |-> W, h |-> H,
   dots |-> [i \in 1..Len(dots) |-> DJson(dots[i])], negative |-> C(sid, 74, 15), black |-> D(sid, 70, 0, 40), white |-> D(sid, 71, 225, 255), channels |-> PickD(sid, 72, <<1, 3>>), tint |-> IF C(sid, 75, 25) THEN D(sid, 76, 1, 100000) ELSE 0, noise |-> PickD(sid, 73, <<0, 0, 2>>)]
Emit == /\ phase = "ready" /\ (IF Visible = TRUE THEN PrintT("CASE " \o ToJson(Case)) ELSE TRUE) /\ phase' = "done" /\ UNCHANGED <<sid, tgt, view, dots, next>>
Next == Choose \/ PrintDot \/ Printed \/ Emit
Spec == Init /\ [][Next]_vars
\* ---- what the model promises ----
\* the origin is at a corner, and no other turn of the grid that keeps the picture's handedness puts it there
Marked == phase = "ready" /\ Count(tgt) > 1 => /\ REq(Points(tgt, Origin(tgt))[1][1], RZero) /\ REq(Points(tgt, Origin(tgt))[1][2], RZero)
                             /\ \A n \in 1..3 : Turned(tgt, n, Origin(tgt)) # Turned(tgt, 0, Origin(tgt)) \/ (tgt.rows # tgt.cols /\ n % 2 = 1)
\* seen from the front the grid keeps its handedness: rows go down where columns go right
Handed == phase = "ready" => LET o == Px(view.k, MP, Pt(RZero, RZero)) x == Px(view.k, MP, Pt(tgt.a, RZero)) y == Px(view.k, MP, Pt(RZero, tgt.a)) IN
   RLt(RSub(RMul(RSub(x[1], o[1]), RSub(y[2], o[2])), RMul(RSub(x[2], o[2]), RSub(y[1], o[1]))), RZero)
\* covering a circle always leaves the grid incomplete
Incomplete == phase = "ready" => (Complete(tgt, dots) <=> ~Covers(sid))
=============================================================================
