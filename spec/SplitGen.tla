------------------------------ MODULE SplitGen ------------------------------
(***************************************************************************)
(* Validation of intrinsics: a target is photographed; the second half of  *)
(* its features is shifted by a known displacement (or by none), features  *)
(* may be disturbed, and one or several such observations are judged.      *)
(***************************************************************************)
EXTENDS Draws
VARIABLES sid, phase, k, mounts, obs
vars == <<sid, phase, k, mounts, obs>>
\* diff: one set of correspondences; acc: several observations
Kind(s) == IF s % 3 = 0 THEN "acc" ELSE "diff"
NObs(s) == IF Kind(s) = "diff" THEN 1 ELSE (IF D(s, 1, 0, 11) = 0 THEN 0 ELSE D(s, 1, 1, 4))
Init == sid \in 1..N /\ phase = "start" /\ k = <<>> /\ mounts = <<>> /\ obs = <<>>
SetUp == /\ phase = "start"
         /\ k' = DrawIntr(sid, 10)
         /\ mounts' = Strict([cam |-> DrawPose(sid, 20, 20), tgt |-> DrawPose(sid, 40, 20), base |-> DrawPose(sid, 60, 20)])
         /\ phase' = "observe" /\ UNCHANGED <<sid, obs>>
\* both halves span the target: four corners each, then extra points
Corner(h, j) == << <<-6, -5>>, <<6, -4>>, <<5, 6>>, <<-5, 5>> >>[j]
Size(i) == LET n == D(sid, 70, 8, 13) IN IF Kind(sid) = "acc" /\ i > 1 /\ D(sid, 71, 0, 7) = 0 /\ i = D(sid, 72, 2, NObs(sid)) THEN n + 1 ELSE n
Half(i) == Size(i) \div 2
Depth(i, j) == F(sid, 200 + 17*i + j, -5, 5, 40)
Pt(i, j) == LET jj == IF j <= Half(i) THEN j ELSE j - Half(i)
                o == IF j <= Half(i) THEN 0 ELSE 1 IN
   IF jj <= 4 THEN << RFrac(Corner(o, jj)[1] + o, 40), RFrac(Corner(o, jj)[2], 40), Depth(i, j) >>
   ELSE << F(sid, 300 + 40*i + 2*j, -7, 7, 40), F(sid, 301 + 40*i + 2*j, -7, 7, 40), Depth(i, j) >>
X(i) == Pose(DrawQ(sid, 400 + 20*i), << F(sid, 410 + 20*i, -5, 5, 20), F(sid, 411 + 20*i, -5, 5, 20), F(sid, 412 + 20*i, 20, 34, 20) >>)
\* nothing, a shift, a turn, or both
Shift(i) == CASE D(sid, 500 + 10*i, 0, 3) = 0 -> PId
              [] D(sid, 500 + 10*i, 0, 3) = 1 -> Pose(QId, V3(sid, 501 + 10*i, 4, 200))
              [] D(sid, 500 + 10*i, 0, 3) = 2 -> Pose(QInt(40, D(sid, 504 + 10*i, -2, 2), D(sid, 505 + 10*i, -2, 2), D(sid, 506 + 10*i, -2, 2)), VZero)
              [] OTHER -> Pose(QInt(40, D(sid, 504 + 10*i, -2, 2), D(sid, 505 + 10*i, -2, 2), D(sid, 506 + 10*i, -2, 2)), V3(sid, 501 + 10*i, 4, 200))
\* one set in five is disturbed
Noisy(i) == D(sid, 540 + i, 0, 4) = 0
Noise(i, j, d) == IF Noisy(i) THEN F(sid, 600 + 40*i + 2*j + d, -40, 40, 10) ELSE RZero
Feats(i) == LET a == PM(X(i)) b == PM(PMul(X(i), Shift(i))) IN
   Strict([j \in 1..Size(i) |-> LET u == Project(k, MPApply(IF j <= Half(i) THEN a ELSE b, Pt(i, j))) IN
              [o |-> << RAdd(u[1], Noise(i, j, 0)), RAdd(u[2], Noise(i, j, 1)) >>, p |-> Pt(i, j)]])
GuessErr(i) == Pose(QInt(30, D(sid, 560 + 5*i, -1, 1), D(sid, 561 + 5*i, -1, 1), D(sid, 562 + 5*i, -1, 1)), V3(sid, 563 + 5*i, 2, 100))
\* the mounts are such that the chain gives the pose near the truth
Observe == /\ phase = "observe" /\ Len(obs) < NObs(sid)
           /\ obs' = Append(obs, LET i == Len(obs) + 1
                                     tm == DrawPose(sid, 800 + 20*i, 20)
                                     guess == PMul(X(i), GuessErr(i))
                                     \* camera base -> camera mount
                                     cm == PMul(mounts.base, PMul(tm, PMul(mounts.tgt, PMul(PInv(guess), PInv(mounts.cam))))) IN
                Strict([cm |-> cm, tm |-> tm, x |-> X(i), shift |-> Shift(i), guess |-> guess, noisy |-> Noisy(i), feats |-> Feats(i)]))
           /\ UNCHANGED <<sid, phase, k, mounts>>
Judge == phase = "observe" /\ Len(obs) = NObs(sid) /\ phase' = "ready" /\ UNCHANGED <<sid, k, mounts, obs>>
Threshold == PickD(sid, 80, << ROne, RFrac(1, 2), RInt(3), RInt(1000) >>)
\* some solves are cut off, however small the error may be by then
Cut == C(sid, 82, 15)
Out(o) == [cm |-> DecPose(o.cm), tm |-> DecPose(o.tm), x |-> DecPose(o.x), shift |-> DecPose(o.shift), guess |-> DecPose(o.guess), noisy |-> o.noisy,
           feats |-> [j \in 1..Len(o.feats) |-> [o |-> Dec(o.feats[j].o), p |-> Dec(o.feats[j].p)]]]
Case == [id |-> "C14-" \o Kind(sid) \o "-" \o ToString(sid), op |-> "split" \o Kind(sid), k |-> Dec(k), thr |-> RDec(IF Cut THEN RInt(1000) ELSE Threshold),
         iters |-> IF Cut THEN D(sid, 83, 0, 3) ELSE -1,
         default |-> D(sid, 81, 0, 1) = 0,
         cam |-> DecPose(mounts.cam), tgt |-> DecPose(mounts.tgt), base |-> DecPose(mounts.base), obs |-> [i \in 1..Len(obs) |-> Out(obs[i])]]
Emit == phase = "ready" /\ PrintT("CASE " \o ToJson(Case)) /\ phase' = "done" /\ UNCHANGED <<sid, k, mounts, obs>>
Next == SetUp \/ Observe \/ Judge \/ Emit
Spec == Init /\ [][Next]_vars
\* the chain of mounts leads to the guess; every feature is in front; undisturbed halves see one rigid target each
ChainGuess == \A i \in 1..Len(obs) : PEq(PMul(PInv(PMul(obs[i].cm, mounts.cam)), PMul(mounts.base, PMul(obs[i].tm, mounts.tgt))), obs[i].guess)
Ahead == \A i \in 1..Len(obs) : \A j \in 1..Len(obs[i].feats) : RLt(RFrac(1, 5), PApply(PMul(obs[i].x, obs[i].shift), obs[i].feats[j].p)[3])
Halves == \A i \in 1..Len(obs) : ~obs[i].noisy => \A j \in 1..Len(obs[i].feats) : LET f == obs[i].feats[j] IN
   Project(k, PApply(IF j <= Len(obs[i].feats) \div 2 THEN obs[i].x ELSE PMul(obs[i].x, obs[i].shift), f.p)) = f.o
=============================================================================
