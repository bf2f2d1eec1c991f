----------------------------- MODULE KinCalGen ------------------------------
(***************************************************************************)
(* Two chains are built, the target is put in front of the camera, joints  *)
(* are moved and observations taken one by one; then some parameters are   *)
(* declared constant and the others guessed.                               *)
(***************************************************************************)
EXTENDS KinCal, Draws
VARIABLES sid, phase, prob, truth, views
vars == <<sid, phase, prob, truth, views>>
Dim(s) == IF D(s, 1, 0, 2) = 0 THEN 6 ELSE 2
Dofs(s) == PickD(s, 2, << <<0, 2>>, <<2, 0>>, <<1, 1>>, <<2, 1>>, <<1, 2>>, <<3, 0>>, <<0, 3>>, <<2, 2>>, <<0, 1>>, <<0, 0>> >>)
Style(s) == PickD(s, 3, << "plain", "plain", "offset", "offset", "noise", "noise", "perfect", "bad", "joints" >>)
\* pi/2 and so on are short decimals here: the chain is what these numbers say
\* sometimes measured and predicted orientation are exactly the same: nothing is turned anywhere
Still == Dim(sid) = 6 /\ Style(sid) = "perfect" /\ C(sid, 4, 60)
Twist(k) == IF Still THEN "0" ELSE IF C(sid, k, 60) THEN PickD(sid, k + 1, << "0", "1.5708", "-1.5708", "3.1416" >>) ELSE RDec(F(sid, k + 2, -3000, 3000, 1000))
Len_(k) == IF C(sid, k, 25) THEN "0" ELSE RDec(F(sid, k + 1, -60, 60, 100))
LinkOf(k, who, i) == [type |-> PickD(sid, k, << "1", "1", "1", "0" >>), p |-> << Len_(k + 1), Twist(k + 3), Len_(k + 6), Twist(k + 8) >>, name |-> who \o ToString(i)]
RVec(k) == LET st == IF Still THEN 0 ELSE D(sid, k, 0, 8) IN
   CASE st = 0 -> VZero
     \* hardly any rotation
     [] st = 2 -> << F(sid, k + 1, -9, 9, 20000), F(sid, k + 2, -9, 9, 20000), F(sid, k + 3, -9, 9, 20000) >>
     [] st = 3 -> << F(sid, k + 1, -9, 9, 100000000), F(sid, k + 2, -9, 9, 100000000), F(sid, k + 3, -9, 9, 100000000) >>
     [] st = 1 -> << F(sid, k + 1, -9, 9, 100), F(sid, k + 2, -9, 9, 100), F(sid, k + 3, -9, 9, 100) >>
     [] OTHER -> << F(sid, k + 1, -120, 120, 100), F(sid, k + 2, -120, 120, 100), F(sid, k + 3, -120, 120, 100) >>
Six(k) == [r |-> RVec(k), t |-> V3(sid, k + 4, 16, 20)]
OffOf(k) == [j \in 1..4 |-> IF Style(sid) # "offset" \/ C(sid, k + j, 40) THEN RZero ELSE F(sid, k + 10 + j, -60, 60, 10000)]
\* a quaternion close to a rotation matrix, with short components
RoundQ(m) ==
  LET q1 == << RAdd(ROne, RAdd(m[1][1], RAdd(m[2][2], m[3][3]))), RSub(m[3][2], m[2][3]), RSub(m[1][3], m[3][1]), RSub(m[2][1], m[1][2]) >>
      q2 == << RSub(m[3][2], m[2][3]), RAdd(ROne, RSub(m[1][1], RAdd(m[2][2], m[3][3]))), RAdd(m[1][2], m[2][1]), RAdd(m[1][3], m[3][1]) >>
      q3 == << RSub(m[1][3], m[3][1]), RAdd(m[1][2], m[2][1]), RAdd(ROne, RSub(m[2][2], RAdd(m[1][1], m[3][3]))), RAdd(m[2][3], m[3][2]) >>
      q4 == << RSub(m[2][1], m[1][2]), RAdd(m[1][3], m[3][1]), RAdd(m[2][3], m[3][2]), RAdd(ROne, RSub(m[3][3], RAdd(m[1][1], m[2][2]))) >>
      q == IF RLt(RFrac(1, 2), q1[1]) THEN q1 ELSE IF RLt(RFrac(1, 2), q2[2]) THEN q2 ELSE IF RLt(RFrac(1, 2), q3[3]) THEN q3 ELSE q4
  IN Strict([k \in 1..4 |-> RRound(q[k], RInt(1000))])
RoundT(t) == Strict([k \in 1..3 |-> RRound(t[k], RInt(1000))])
LooksAt(k) == Pose(IF Still THEN QInt(1, 0, 0, 0) ELSE QInt(8, D(sid, k, -3, 3), D(sid, k + 1, -3, 3), D(sid, k + 2, -9, 9)), << F(sid, k + 3, -5, 5, 20), F(sid, k + 4, -5, 5, 20), F(sid, k + 5, 22, 40, 20) >>)
NoViews == <<>>
Parse(links) == Strict([i \in 1..Len(links) |-> [type |-> links[i].type, p |-> NumV(links[i].p)]])
Joint(links, i, k) == IF links[i].type = "0" THEN F(sid, k, -20, 20, 100) ELSE IF Still THEN RZero ELSE F(sid, k, -45, 45, 100)
Home(links, i, k) == IF links[i].type = "0" THEN F(sid, k, -30, 30, 100) ELSE IF Still THEN RZero ELSE F(sid, k, -250, 250, 100)
Joints(links, k, n) == Strict([i \in 1..Len(links) |-> LET h == Home(links, i, 800 + k + i) IN IF n = 1 THEN h ELSE RAdd(h, Joint(links, i, 900 + (50 * n) + k + i))])

Init == sid \in 1..N /\ phase = "start" /\ prob = <<>> /\ truth = <<>> /\ views = <<>>
Pts == [i \in 1..D(sid, 40, 5, 8) |-> << F(sid, 50 + (4 * i), -30, 30, 100), F(sid, 51 + (4 * i), -30, 30, 100), IF C(sid, 41, 40) THEN RZero ELSE F(sid, 52 + (4 * i), -15, 15, 100) >>]
Build ==
  /\ phase = "start"
  /\ LET d == Dofs(sid)
         cl == Strict([i \in 1..d[1] |-> LinkOf(100 + (20 * i), "camera_joint_", i)])
         tl == Strict([i \in 1..d[2] |-> LinkOf(200 + (20 * i), "target_joint_", i)])
         cb == Strict(Pose(IF Still THEN QInt(1, 0, 0, 0) ELSE QInt(D(sid, 300, 2, 5), D(sid, 301, -2, 2), D(sid, 302, -2, 2), D(sid, 303, -2, 2)), V3(sid, 304, 16, 20)))
     IN /\ prob' = [cl |-> cl, tl |-> tl, cb |-> cb, tb |-> PId]
        /\ truth' = Strict([cam |-> Six(310), tgt |-> Six(330), base |-> Six(350),
                            coff |-> [i \in 1..d[1] |-> OffOf(400 + (20 * i))], toff |-> [i \in 1..d[2] |-> OffOf(500 + (20 * i))]])
  /\ phase' = "place" /\ UNCHANGED <<sid, views>>
ChainC(p) == Strict([base |-> RP(PM(p.cb)), links |-> Parse(p.cl)])
ChainT(p) == Strict([base |-> RP(PM(p.tb)), links |-> Parse(p.tl)])
TruthEst == Strict([cam |-> SixM(truth.cam), tgt |-> SixM(truth.tgt), base |-> SixM(truth.base), coff |-> truth.coff, toff |-> truth.toff])
Bare(v) == [cc |-> ChainC(prob), tc |-> ChainT(prob)]
\* the base of the target's chain is where the first observation sees the target in front of the camera
Place ==
  /\ phase = "place"
  /\ prob' = (LET e == TruthEst
         a == Strict(MPMul(Chain(ChainC(prob), Joints(prob.cl, 10, 1), e.coff), e.cam))
         want == Strict(MPMul(Strict(MPInv(e.base)), Strict(MPMul(a, PM(LooksAt(360))))))
         rest == Strict(MPMul(Chain([base |-> MPId, links |-> Parse(prob.tl)], Joints(prob.tl, 20, 1), e.toff), e.tgt))
         b == Strict(MPMul(want, Strict(MPInv(rest))))
     IN Strict([prob EXCEPT !.tb = Pose(RoundQ(b.m), RoundT(b.t))]))
  /\ phase' = "observe" /\ UNCHANGED <<sid, truth, views>>
NumViews == IF Dim(sid) = 6 THEN D(sid, 42, 10, 16) ELSE D(sid, 42, 3, 6)
Noise(k, r, d) == IF Style(sid) = "noise" THEN F(sid, k, -r, r, d) ELSE RZero
\* the target is taken for one that is turned by almost a half turn
Around == Pose(QInt(1, D(sid, 8, 40, 90), D(sid, 9, -90, 90), D(sid, 10, -90, 90)), V3(sid, 11, 20, 10000))
Observe ==
  /\ phase = "observe" /\ Len(views) < NumViews
  /\ views' = (LET n == Len(views) + 1
         p == Strict([cc |-> ChainC(prob), tc |-> ChainT(prob)])
         cj == Joints(prob.cl, 10, n) tj == Joints(prob.tl, 20, n)
         X == CameraToTarget(p, TruthEst, [cj |-> cj, tj |-> tj])
         K == DrawIntr(sid, 30)
         see == SelectSeq(Strict([i \in 1..Len(Pts) |-> Strict(MPApply(X, Pts[i]))]), LAMBDA q : TRUE)
         ids == SelectSeq([i \in 1..Len(Pts) |-> i], LAMBDA i : RLt(RFrac(1, 2), see[i][3]))
         px(i) == LET o == Strict(Project(K, see[i])) IN << RAdd(o[1], Noise(3000 + (40 * n) + i, 30, 10)), RAdd(o[2], Noise(3020 + (40 * n) + i, 30, 10)) >>
     IN Append(views, Strict(
          IF Dim(sid) = 2 THEN [cj |-> cj, tj |-> tj, feats |-> [i \in 1..Len(ids) |-> [o |-> px(ids[i]), p |-> Pts[ids[i]]]]]
          ELSE [cj |-> cj, tj |-> tj, X |-> X, x |-> IF Style(sid) = "noise" /\ C(sid, 5, 50) /\ n = D(sid, 6, 1, NumViews) THEN MPMul(X, PM(Around)) ELSE IF Style(sid) = "noise" THEN MPMul(X, PM(Pose(QInt(200, D(sid, 3400 + n, -2, 2), D(sid, 3420 + n, -2, 2), D(sid, 3440 + n, -2, 2)), << Noise(3460 + n, 30, 10000), Noise(3480 + n, 30, 10000), Noise(3500 + n, 30, 10000) >>))) ELSE X])))
  /\ phase' = "observe" /\ UNCHANGED <<sid, prob, truth>>
\* ---- constants ----
Tables == LET row(k, i) == CASE D(sid, k, 0, 4) = 0 -> <<0, 0, 0, 0>>
                             [] D(sid, k, 0, 4) = 1 -> <<1, 1, 1, 1>>
                             [] D(sid, k, 0, 4) = 2 -> <<1, 0, 1, 1>>
                             [] OTHER -> << D(sid, k + 1, 0, 1), D(sid, k + 2, 0, 1), D(sid, k + 3, 0, 1), D(sid, k + 4, 0, 1) >>
              table(k, n) == IF C(sid, k, 25) THEN [i \in 1..n |-> <<1, 1, 1, 1>>] ELSE IF C(sid, k + 1, 25) THEN [i \in 1..n |-> <<0, 0, 0, 0>>] ELSE [i \in 1..n |-> row(k + (6 * i), i)]
          IN Strict(<< table(1000, Len(prob.cl)), table(1100, Len(prob.tl)) >>)
Subsets == << <<>>, <<>>, <<>>, <<0, 1, 2>>, <<0, 1, 2>>, <<2, 0, 1, 2>>, <<1>>, <<2, 0>>, <<0, 0>> >>
\* at least one of the three poses stays entirely constant most of the time
RigidMasks == Strict([i \in 1..6 |-> IF C(sid, 1200, 70) /\ ((i + 1) \div 2) = D(sid, 1201, 1, 3) THEN <<0, 1, 2>> ELSE PickD(sid, 1210 + i, Subsets)])
\* a mask that names a parameter which does not exist
BadAt == D(sid, 1230, 1, 8)
BadIdx(n) == n + PickD(sid, 1231, <<0, 0, 1, 7>>)
Table(k) == Tables[k]
Extra(k) == IF Style(sid) = "bad" /\ BadAt = k THEN <<BadIdx(IF Len(Table(k)) = 0 THEN 4 ELSE 4 * Len(Table(k)))>>
            ELSE IF Table(k) # <<>> /\ C(sid, 1240 + k, 20) /\ \E r \in 1..Len(Table(k)) : Table(k)[r][2] = 1
            THEN <<Len(Table(k)) + (CHOOSE r \in 1..Len(Table(k)) : Table(k)[r][2] = 1) - 1>>
            ELSE IF Table(k) = <<>> /\ C(sid, 1242 + k, 30) THEN <<D(sid, 1244 + k, 0, 3)>> ELSE <<>>
Rigid(i) == IF Style(sid) = "bad" /\ BadAt = i + 2 THEN RigidMasks[i] \o <<BadIdx(3)>> ELSE RigidMasks[i]
\* ---- the guess: what is constant is known ----
Bump(mask, v, k, r, d) == [i \in 1..3 |-> IF (i - 1) \in SeqSet(mask) \/ Style(sid) = "perfect" THEN v[i] ELSE RAdd(v[i], F(sid, k + i, -r, r, d))]
\* a guess without rotation, where the truth is close enough to it
Guess6(six, pm, rm, k) == [r |-> IF SeqSet(rm) \cap (0..2) = {} /\ RLt(VSq(six.r), RFrac(1, 150)) /\ Style(sid) # "perfect" THEN VZero ELSE Bump(rm, six.r, k, 2, 100), t |-> Bump(pm, six.t, k + 5, 2, 100)]
\* an offset that may not change is zero
Fixed(offs, table) == [i \in 1..Len(offs) |-> [j \in 1..4 |-> IF table[i][j] = 1 THEN RZero ELSE offs[i][j]]]
\* joint vectors that do not fit the chain
JJ(js, k, n) == IF Style(sid) = "joints" /\ n = D(sid, 1300, 1, NumViews) /\ k = D(sid, 1301, 1, 2) THEN js \o <<RFrac(1, 2)>> ELSE js
SixOut(s) == [r |-> Dec(s.r), t |-> Dec(s.t)]
ChainOut(b, links) == [base |-> DecPose(b), links |-> links]
Sds == << "0.001", "0.001", "1", "10", "0.02" >>
Case == LET t == Tables g == RigidMasks IN
  [id |-> "C12-" \o ToString(sid), op |-> "kincal", style |-> Style(sid), dim |-> Dim(sid), intr |-> Dec(DrawIntr(sid, 30)),
   cchain |-> ChainOut(prob.cb, prob.cl), tchain |-> ChainOut(prob.tb, prob.tl),
   cam |-> SixOut(Guess6(truth.cam, g[1], g[2], 1400)), tgt |-> SixOut(Guess6(truth.tgt, g[3], g[4], 1420)), base |-> SixOut(Guess6(truth.base, g[5], g[6], 1440)),
   dhmask |-> t, extra |-> << Extra(1), Extra(2) >>, mask |-> [i \in 1..6 |-> Rigid(i)],
   csd |-> PickD(sid, 1310, Sds), tsd |-> PickD(sid, 1311, Sds), weight |-> PickD(sid, 1312, << "100", "1", "10" >>), threads |-> PickD(sid, 1313, << 1, 4 >>), limit |-> IF Style(sid) = "noise" /\ C(sid, 1317, 50) THEN D(sid, 1318, 0, 3) ELSE 300,
   lab |-> IF C(sid, 1314, 50) THEN [cam |-> "camera_mount_to_camera", tgt |-> "target_mount_to_target", base |-> "camera_base_to_target"] ELSE [cam |-> "a", tgt |-> "b b", base |-> "c"],
   iters |-> IF Style(sid) = "noise" /\ C(sid, 1315, 30) THEN D(sid, 1316, 0, 2) ELSE -1,
   truth |-> [cam |-> SixOut(truth.cam), tgt |-> SixOut(truth.tgt), base |-> SixOut(truth.base), coff |-> DecSeq(Fixed(truth.coff, t[1])), toff |-> DecSeq(Fixed(truth.toff, t[2]))],
   views |-> [n \in 1..Len(views) |-> LET v == views[n] IN
      IF Dim(sid) = 2 THEN [cj |-> Dec(JJ(v.cj, 1, n)), tj |-> Dec(JJ(v.tj, 2, n)), feats |-> [i \in 1..Len(v.feats) |-> [o |-> Dec(v.feats[i].o), p |-> Dec(v.feats[i].p)]]]
      ELSE [cj |-> Dec(JJ(v.cj, 1, n)), tj |-> Dec(JJ(v.tj, 2, n)), x |-> Dec(v.x.m[1] \o <<v.x.t[1]>> \o v.x.m[2] \o <<v.x.t[2]>> \o v.x.m[3] \o <<v.x.t[3]>>)]]]
\* the offsets that may not change are zero in the data, too: take the observations again
Fit == \/ Style(sid) # "offset"
       \/ /\ Fixed(truth.coff, Tables[1]) = truth.coff
          /\ Fixed(truth.toff, Tables[2]) = truth.toff
Mask ==
  /\ phase = "observe" /\ Len(views) = NumViews /\ Fit = FALSE
  /\ truth' = Strict([truth EXCEPT !.coff = Fixed(@, Tables[1]), !.toff = Fixed(@, Tables[2])])
  /\ views' = <<>> /\ UNCHANGED <<sid, phase, prob>>
Seen == Dim(sid) = 6 \/ \E k \in 1..Len(views) : Len(views[k].feats) > 0
Handed ==
  /\ phase = "observe" /\ Len(views) = NumViews /\ Fit = TRUE
  /\ phase' = (IF Seen THEN "ready" ELSE "discard") /\ UNCHANGED <<sid, prob, truth, views>>
Emit == phase = "ready" /\ PrintT("CASE " \o ToJson(Case)) /\ phase' = "done" /\ UNCHANGED <<sid, prob, truth, views>>
Next == Build \/ Place \/ Observe \/ Mask \/ Handed \/ Emit
Spec == Init /\ [][Next]_vars
\* ---- what the model promises ----
Full(sd) == Strict([dim |-> Dim(sid), intr |-> DrawIntr(sid, 30), cc |-> ChainC(prob), tc |-> ChainT(prob), fc |-> FreeOf(Len(prob.cl), Tables[1]), ft |-> FreeOf(Len(prob.tl), Tables[2]),
   csd |-> sd, tsd |-> sd, weight |-> RInt(10), views |-> views])
Tol == RParse("1e-20")
\* without noise and offsets the truth costs nothing; offsets cost what their expectation says
TruthExplains == phase = "ready" /\ Style(sid) # "noise" =>
   LET p == Full(RInt(1)) c == CostPerObs(p, TruthEst) IN
   RNear(RMul(RInt(2 * NumResiduals(p)), c), RAdd(PriorSq(p.fc, p.cc, truth.coff, ROne), PriorSq(p.ft, p.tc, truth.toff, ROne)), Tol)
\* the frame in which both bases are given does not matter
BaseFree == phase = "ready" /\ sid % 4 = 0 =>
   LET p == Full(RInt(1)) g == PM(Pose(QInt(3, 1, -2, 1), VInt(1, 2, 3))) e == TruthEst
       moved == [p EXCEPT !.cc.base = Strict(RP(MPMul(g, @)))] IN
   RNear(CostPerObs(moved, Strict([e EXCEPT !.base = MPMul(g, @)])), CostPerObs(p, e), Tol)
\* an offset of a link is a change of that link's parameter
OffsetIsParameter == phase = "ready" /\ Len(prob.cl) > 0 => LET x == RFrac(1, 50) p == Strict(PM(prob.cb)) l == Parse(prob.cl) js == views[1].cj
      off == [Zeros(Len(l)) EXCEPT ![1] = <<x, RZero, RNeg(x), x>>] IN
   MPNear(Fk(p, l, js, off), Fk(p, [l EXCEPT ![1].p = Strict(<<RAdd(@[1], x), @[2], RSub(@[3], x), RAdd(@[4], x)>>)], js, Zeros(Len(l))), Tol, Tol)
\* indices of a table's marks: as many as marks, all within the block
Indexed == phase = "ready" => \A k \in 1..2 : LET m == MaskIdx(Tables[k]) n == Len(Tables[k]) IN
   /\ m \subseteq 0..((4 * n) - 1)
   /\ Cardinality(m) + Cardinality(FreeOf(n, Tables[k])) = 4 * n
=============================================================================
