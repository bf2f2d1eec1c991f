------------------------------ MODULE NoiseGen ------------------------------
(***************************************************************************)
(* Noise qualification: orientations (of either sign) are gathered, or     *)
(* pose problems are posed one by one - around one pose or spread widely,  *)
(* with exact or disturbed features, some cut off before they are solved - *)
(* and their statistics asked for, in the given and in another order.      *)
(***************************************************************************)
EXTENDS Stats, Draws
VARIABLES sid, phase, k, centre, items
vars == <<sid, phase, k, centre, items>>
Kind(s) == <<"quats", "noise2", "noise3">>[1 + (s % 3)]
Count(s) == IF Kind(s) = "quats" THEN D(s, 1, 1, 9) ELSE D(s, 1, 1, 6)
Wide == C(sid, 2, 30)
Init == sid \in 1..N /\ phase = "start" /\ k = <<>> /\ centre = <<>> /\ items = <<>>
Start == /\ phase = "start" /\ k' = DrawIntr(sid, 10)
         /\ centre' = Strict(Pose(DrawQ(sid, 20), << F(sid, 30, -5, 5, 20), F(sid, 31, -5, 5, 20), F(sid, 32, 24, 40, 20) >>))
         /\ phase' = "gather" /\ UNCHANGED <<sid, items>>
\* a spread of a few degrees and millimetres, or anything
Turn(i) == IF Wide THEN DrawQ(sid, 100 + 20*i) ELSE QInt(PickD(sid, 40, <<40, 400, 4000>>), D(sid, 101 + 20*i, -5, 5), D(sid, 102 + 20*i, -5, 5), D(sid, 103 + 20*i, -5, 5))
Slide(i) == IF Wide THEN V3(sid, 110 + 20*i, 6, 20) ELSE V3(sid, 110 + 20*i, 9, PickD(sid, 41, <<100, 1000, 20>>))
PoseAt(i) == PMul(centre, Pose(Turn(i), Slide(i)))
Sign(i) == IF D(sid, 300 + i, 0, 1) = 0 THEN 1 ELSE -1
\* the cut ones have nine features, no other has
Cut(i) == C(sid, 320 + i, 15)
Size(i) == IF Cut(i) THEN 9 ELSE D(sid, 340 + i, 4, 7)
Base == << <<-6, -5, 0>>, <<6, -4, 1>>, <<5, 6, -1>>, <<-5, 5, 0>> >>
Pt(i, j) == IF j <= 4 THEN << RFrac(Base[j][1], 40), RFrac(Base[j][2], 40), RFrac(Base[j][3], 40) >> ELSE V3(sid, 400 + 40*i + 3*j, 6, 40)
Noisy(i) == C(sid, 360 + i, 50)
Jit(i, j, d) == IF Noisy(i) THEN F(sid, 700 + 60*i + 3*j + d, -9, 9, IF Kind(sid) = "noise3" THEN 3000 ELSE 10) ELSE RZero
See(i, j) == LET c == Strict(MPApply(PM(PoseAt(i)), Pt(i, j))) u == IF Kind(sid) = "noise3" THEN c ELSE Project(k, c) IN [d \in 1..Len(u) |-> RAdd(u[d], Jit(i, j, d))]
\* a problem that is cut off may have started at the truth, nearly
GuessErr(i) == IF Cut(i) /\ C(sid, 370 + i, 60) THEN Pose(QInt(30000, D(sid, 380 + 5*i, -1, 1), D(sid, 381 + 5*i, -1, 1), 1), V3(sid, 383 + 5*i, 2, 100000)) ELSE Pose(QInt(30, D(sid, 380 + 5*i, -1, 1), D(sid, 381 + 5*i, -1, 1), D(sid, 382 + 5*i, -1, 1)), V3(sid, 383 + 5*i, 2, 100))
Gather == /\ phase = "gather" /\ Len(items) < Count(sid)
          /\ items' = Append(items, LET i == Len(items) + 1 IN
               IF Kind(sid) = "quats" THEN Strict([q |-> LET q == QMul(centre.q, Turn(i)) IN IF Sign(i) = 1 THEN q ELSE << RNeg(q[1]), RNeg(q[2]), RNeg(q[3]), RNeg(q[4]) >>])
               ELSE Strict([x |-> PoseAt(i), guess |-> PMul(PoseAt(i), GuessErr(i)), cut |-> Cut(i), feats |-> [j \in 1..Size(i) |-> [o |-> See(i, j), p |-> Pt(i, j)]]]))
          /\ UNCHANGED <<sid, phase, k, centre>>
Ask == phase = "gather" /\ Len(items) = Count(sid) /\ phase' = "ready" /\ UNCHANGED <<sid, k, centre, items>>
\* a problem whose features are not all well in front of the camera is left out
Sound(it) == \A j \in 1..Len(it.feats) : LET a == PApply(it.x, it.feats[j].p) b == PApply(it.guess, it.feats[j].p) IN RLt(RFrac(1, 4), a[3]) /\ RLt(RFrac(1, 4), b[3])
Kept == IF Kind(sid) = "quats" THEN items ELSE SelectSeq(items, Sound)
Order == Perm(St(sid), 50, Len(Kept))
Out(it) == IF Kind(sid) = "quats" THEN [q |-> Dec(it.q)]
           ELSE [guess |-> DecPose(it.guess), cut |-> it.cut, feats |-> [j \in 1..Len(it.feats) |-> [o |-> Dec(it.feats[j].o), p |-> Dec(it.feats[j].p)]]]
Case == [id |-> "C15-" \o Kind(sid) \o "-" \o ToString(sid), op |-> Kind(sid), k |-> Dec(k), items |-> [i \in 1..Len(Kept) |-> Out(Kept[i])], order |-> Order]
Emit == phase = "ready" /\ PrintT("CASE " \o ToJson(Case)) /\ phase' = "done" /\ UNCHANGED <<sid, k, centre, items>>
Next == Start \/ Gather \/ Ask \/ Emit
Spec == Init /\ [][Next]_vars
\* ---- what the model promises ----
Flip(q) == << RNeg(q[1]), RNeg(q[2]), RNeg(q[3]), RNeg(q[4]) >>
Qs == [i \in 1..Len(items) |-> items[i].q]
\* signs and order do not change the average; the average of one orientation is itself
SignFree == phase = "ready" /\ Kind(sid) = "quats" => LET n == Len(items) IN
   Moment(Qs, n) = Moment(Strict([i \in 1..n |-> IF i % 2 = 1 THEN Flip(items[i].q) ELSE items[i].q]), n)
Lone == phase = "ready" /\ Kind(sid) = "quats" => IsMean(Qs[1], <<Qs[1], Flip(Qs[1])>>, RParse("1e-12"))
\* the angle of a turn is that of its inverse, and nothing for a sign flip
AngleSym == phase = "ready" /\ Kind(sid) = "quats" => LET a == Qs[1] b == Qs[Len(Qs)] IN
   QChord(a, b) = QChord(Flip(b), a) /\ RLt(QAngle(a, Flip(a)), RParse("1e-11"))
=============================================================================
