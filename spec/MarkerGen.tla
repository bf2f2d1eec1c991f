----------------------------- MODULE MarkerGen ------------------------------
(***************************************************************************)
(* A marker target is put before a camera and marker after marker is left  *)
(* in place or covered up; markers that do not belong to the target may    *)
(* lie next to it.  A marker that could be read or not (cut by the border  *)
(* of the picture, too small) is covered, so that what is visible is a     *)
(* matter of fact.                                                         *)
(***************************************************************************)
EXTENDS Marker, Draws
VARIABLES sid, phase, tgt, view, shown, next
vars == <<sid, phase, tgt, view, shown, next>>
Kind(s) == << "aruco", "charuco" >>[1 + (s % 2)]
DictSize == << 50, 100, 250, 1000 >>
DrawTarget(s) ==
  LET kind == Kind(s) a == RFrac(D(s, 4, 10, 300), 1000) IN
  Strict([kind |-> kind, rows |-> (IF kind = "aruco" THEN D(s, 1, 1, 4) ELSE D(s, 1, 2, 6)), cols |-> (IF kind = "aruco" THEN D(s, 2, 1, 5) ELSE D(s, 2, 2, 6)),
    a |-> a, b |-> IF kind = "aruco" THEN RMul(a, RFrac(D(s, 8, 3, 10), 10)) ELSE RMul(a, RFrac(D(s, 10, 6, 8), 10)),
    dict |-> D(s, 3, 0, 15), first |-> IF kind = "aruco" /\ C(s, 11, 30) THEN D(s, 12, 1, 20) ELSE 0])
W == 800
H == 600
\* cells along the side of a marker
Cells(t) == (t.dict \div 4) + 6
\* the camera: any roll, tilted up to about 45 degrees, marker cells of 7 to 12 pixels in the middle of the picture
DrawView(s, t) ==
  LET f == RInt(D(s, 30, 500, 900)) k == << f, RAdd(f, RInt(D(s, 31, -10, 10))), RInt(D(s, 32, 380, 420)), RInt(D(s, 33, 280, 320)) >>
      roll == QInt(D(s, 34, -6, 6), 0, 0, D(s, 35, 1, 6)) r2 == IF C(s, 36, 20) THEN PickD(s, 37, << QId, QInt(1, 0, 0, 1), QInt(0, 0, 0, 1), QInt(1, 0, 0, -1) >>) ELSE roll
      big == D(s, 38, 0, 3) tilt == QInt(10, D(s, 39, -big, big), D(s, 40, -big, big), 0)
      q == QMul(tilt, r2)
      side == IF t.kind = "aruco" THEN t.a ELSE t.b
      z == RDiv(RMul(f, side), RMul(RInt(Cells(t)), RFrac(D(s, 41, 70, IF C(s, 44, 70) THEN 90 ELSE 120), 10)))
      e == Extent(t) mid == << RDiv(e[1], RInt(2)), RDiv(e[2], RInt(2)), RZero >>
      off == IF C(s, 45, 60) THEN << RZero, RZero >> ELSE << F(s, 42, -150, 150, 1), F(s, 43, -120, 120, 1) >>
      c == << RMul(RDiv(RSub(RAdd(RInt(400), off[1]), k[3]), f), z), RMul(RDiv(RSub(RAdd(RInt(300), off[2]), k[4]), k[2]), z), z >>
  IN Strict([k |-> k, pose |-> [q |-> q, t |-> VSub(c, MVec(QMat(q), mid))]])
\* markers that do not belong to the target, one pitch and more beyond its right border
Foreign(s, t) ==
  LET n == IF C(s, 50, 40) THEN D(s, 51, 1, 3) ELSE 0 e == Extent(t) side == IF t.kind = "aruco" THEN t.a ELSE t.b
      lo == First(t) + Len(MarkersOf(t)) cap == DictSize[1 + (t.dict % 4)] IN
  [i \in 1..n |-> [id |-> lo + D(s, 51 + i, 0, 3) * n + i - 1, x |-> RAdd(e[1], RMul(side, RFrac(D(s, 55, 6, 20), 10))), y |-> RMul(RInt(i - 1), RMul(side, RFrac(16, 10))), s |-> side]]
Init == sid \in 1..N /\ phase = "start" /\ tgt = <<>> /\ view = <<>> /\ shown = <<>> /\ next = 1
Choose == /\ phase = "start" /\ tgt' = DrawTarget(sid) /\ view' = DrawView(sid, tgt') /\ phase' = "cover" /\ UNCHANGED <<sid, shown, next>>
MP == PM(view.pose)
Us(m) == PxAll(view.k, MP, Corners(m))
Clear(m) == /\ Ahead(MP, Corners(m)) /\ LET us == Us(m) IN RLe(RInt(36 * Cells(tgt) * Cells(tgt)), Side2(us)) /\ (InPicture(us, W, H, 14))
Gone(m) == Ahead(MP, Corners(m)) /\ OutOfPicture(Us(m), W, H, 14)
CoverRate == PickD(sid, 60, << 0, 0, 15, 40, 80, 100 >>)
\* what is left of the scene
Cover == /\ phase = "cover" /\ next <= Len(MarkersOf(tgt))
         /\ shown' = LET m == MarkersOf(tgt)[next] IN IF (Clear(m) = TRUE \/ Gone(m) = TRUE) /\ ~C(sid, 100 + next, CoverRate) THEN Append(shown, m) ELSE shown
         /\ next' = next + 1 /\ UNCHANGED <<sid, phase, tgt, view>>
Strangers == LET f == Foreign(sid, tgt) cap == DictSize[1 + (tgt.dict % 4)] IN Strict(SelectSeq(f, LAMBDA m : m.id < cap /\ (Clear(m) = TRUE \/ Gone(m) = TRUE)))
Covered == phase = "cover" /\ next > Len(MarkersOf(tgt)) /\ phase' = "ready" /\ UNCHANGED <<sid, tgt, view, shown, next>>
MJson(m) == [id |-> m.id, x |-> RDec(m.x), y |-> RDec(m.y), s |-> RDec(m.s)]
Case == [id |-> "C19-" \o tgt.kind \o "-" \o ToString(sid), op |-> "markers", t |-> [kind |-> tgt.kind, rows |-> tgt.rows, cols |-> tgt.cols, a |-> RDec(tgt.a), b |-> RDec(tgt.b), dict |-> tgt.dict, first |-> tgt.first],
   intr |-> Dec(view.k), pose |-> DecPose(view.pose), w |-> W, h |-> H, shown |-> [i \in 1..Len(shown) |-> MJson(shown[i])], foreign |-> [i \in 1..Len(Strangers) |-> MJson(Strangers[i])],
   black |-> D(sid, 70, 0, 70), white |-> D(sid, 71, 170, 255), channels |-> PickD(sid, 72, <<1, 3>>), tint |-> IF C(sid, 75, 25) THEN D(sid, 76, 1, 100000) ELSE 0, noise |-> PickD(sid, 73, <<0, 0, 3>>)]
Emit == phase = "ready" /\ PrintT("CASE " \o ToJson(Case)) /\ phase' = "done" /\ UNCHANGED <<sid, tgt, view, shown, next>>
Next == Choose \/ Cover \/ Covered \/ Emit
Spec == Init /\ [][Next]_vars
\* ---- what the model promises ----
\* a chessboard has a marker in every white square, and every inner corner touches two of them
TwoMarkers == phase = "ready" /\ tgt.kind = "charuco" => /\ Len(MarkersOf(tgt)) = (tgt.rows * tgt.cols) \div 2
                                                        /\ \A id \in Ids(tgt) : Cardinality(Touching(tgt, id)) = 2
\* covering a marker never makes a feature readable
Monotone == phase = "ready" => LET all == {shown[i].id : i \in 1..Len(shown)} IN \A m \in all : Readable(tgt, all \ {m}) \subseteq Readable(tgt, all)
\* strangers make nothing readable
StrangersIgnored == phase = "ready" => LET all == {shown[i].id : i \in 1..Len(shown)} IN Readable(tgt, all \cup {Strangers[i].id : i \in 1..Len(Strangers)}) = Readable(tgt, all)
\* an inner corner lies between the markers that touch it
Between == phase = "ready" /\ tgt.kind = "charuco" => \A id \in Ids(tgt) : LET p == Points(tgt, id)[1] ms == {m \in {MarkersOf(tgt)[i] : i \in 1..Len(MarkersOf(tgt))} : m.id \in Touching(tgt, id)} IN
   \A m \in ms : RLt(RAbs(RSub(RAdd(m.x, RDiv(m.s, RInt(2))), p[1])), tgt.a) /\ RLt(RAbs(RSub(RAdd(m.y, RDiv(m.s, RInt(2))), p[2])), tgt.a)
=============================================================================
