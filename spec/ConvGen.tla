------------------------------ MODULE ConvGen -------------------------------
(***************************************************************************)
(* Poses are converted and composed step by step; values are built, copied *)
(* and changed in at most one part before they are compared.               *)
(***************************************************************************)
EXTENDS Conv, Draws
VARIABLES sid, phase, chain, total, vals
vars == <<sid, phase, chain, total, vals>>
Kind(s) == <<"convert", "eq", "sixvec", "eq", "quat", "eq", "convert">>[1 + (s % 7)]
Init == sid \in 1..N /\ phase = "start" /\ chain = <<>> /\ total = PId /\ vals = <<>>
\* ---- chains of poses ----
Len0(s) == D(s, 1, 1, 5)
Compose ==
  /\ phase = "start" /\ Kind(sid) = "convert" /\ Len(chain) < Len0(sid)
  /\ chain' = Append(chain, Strict(DrawPose(sid, 20 + 10 * Len(chain), 30)))
  /\ total' = PMul(total, chain'[Len(chain')])
  /\ UNCHANGED <<sid, phase, vals>>
\* ---- values with parts ----
Types == <<"intr", "corr2", "corr3", "obs2", "obs3", "kin2", "kin3", "meas", "hep2", "hep3">>
Type(s) == Types[D(s, 2, 1, Len(Types))]
Nums(k, n) == [i \in 1..n |-> F(sid, k + i, 3, 900, 100)]
Feats(k, dim, n) == [i \in 1..n |-> [o |-> Nums(k + 10*i, dim), p |-> Nums(k + 10*i + 5, 3)]]
FeatsJ(fs) == [i \in 1..Len(fs) |-> [o |-> Dec(fs[i].o), p |-> Dec(fs[i].p)]]
NF(s) == D(s, 3, 1, 3)
View(k, dim) == [cm |-> DrawPose(sid, k, 20), tm |-> DrawPose(sid, k + 10, 20), feats |-> Feats(k + 20, dim, NF(sid))]
Value == CASE Type(sid) = "intr" -> [intr |-> Nums(100, 4)]
           [] Type(sid) = "corr2" -> [feat |-> Feats(100, 2, 1)[1]]
           [] Type(sid) = "corr3" -> [feat |-> Feats(100, 3, 1)[1]]
           [] Type(sid) = "obs2" -> View(100, 2)
           [] Type(sid) = "obs3" -> View(100, 3)
           [] Type(sid) \in {"kin2", "kin3"} -> [feats |-> Feats(100, IF Type(sid) = "kin2" THEN 2 ELSE 3, NF(sid)), cj |-> Nums(200, D(sid, 4, 1, 4)), tj |-> Nums(210, D(sid, 5, 0, 3))]
           [] Type(sid) = "meas" -> [x |-> DrawPose(sid, 100, 20), cj |-> Nums(200, D(sid, 4, 1, 4)), tj |-> Nums(210, D(sid, 5, 0, 3))]
           [] Type(sid) = "hep2" -> [intr |-> Nums(100, 4), cam |-> DrawPose(sid, 110, 20), tgt |-> DrawPose(sid, 120, 20), obs |-> [i \in 1..D(sid, 6, 1, 2) |-> View(200 + 100*i, 2)]]
           [] OTHER -> [cam |-> DrawPose(sid, 110, 20), tgt |-> DrawPose(sid, 120, 20), obs |-> [i \in 1..D(sid, 6, 1, 2) |-> View(200 + 100*i, 3)]]
Build == /\ phase = "start" /\ Kind(sid) = "eq"
         /\ vals' = Strict(<<Value>>) /\ phase' = "copy" /\ UNCHANGED <<sid, chain, total>>
\* the change: how much one number is changed, relative to it
Amount == PickD(sid, 7, << RFrac(1, 1000), RFrac(-1, 100000), RFrac(1, 1000000), RParse("1e-9"), RFrac(1, 2) >>)
\* ... or so little that the documented precision hides it
Hidden == RParse("1e-15")
Bump(v, i, by) == [v EXCEPT ![i] = RMul(@, RAdd(ROne, by))]
\* poses are changed in translation or turned a little
BumpPose(p, by) == IF D(sid, 8, 0, 1) = 0
                   THEN [p EXCEPT !.t[D(sid, 9, 1, 3)] = RAdd(@, RMul(by, RInt(4)))]
                   ELSE PMul(p, Pose(<<ROne, IF D(sid, 9, 1, 3) = 1 THEN by ELSE RZero, IF D(sid, 9, 1, 3) = 2 THEN by ELSE RZero, IF D(sid, 9, 1, 3) = 3 THEN by ELSE RZero>>, VZero))
BumpFeat(f, by) == IF D(sid, 10, 0, 1) = 0 THEN [f EXCEPT !.o = Bump(@, D(sid, 11, 1, Len(@)), RMul(by, RInt(20)))]
                                           ELSE [f EXCEPT !.p = Bump(@, D(sid, 11, 1, 3), RMul(by, RInt(20)))]
\* lists are changed in one element, shortened or lengthened
BumpFeats(fs, by) == CASE D(sid, 12, 0, 4) = 0 -> SubSeq(fs, 1, Len(fs) - 1)
                       [] D(sid, 12, 0, 4) = 1 -> Append(fs, Feats(900, Len(fs[1].o), 1)[1])
                       [] OTHER -> [fs EXCEPT ![D(sid, 13, 1, Len(fs))] = BumpFeat(@, by)]
BumpJ(v, by) == CASE Len(v) = 0 \/ D(sid, 12, 0, 3) = 0 -> Append(v, ROne)
                  [] D(sid, 12, 0, 3) = 1 -> SubSeq(v, 1, Len(v) - 1)
                  [] OTHER -> Bump(v, D(sid, 13, 1, Len(v)), RMul(by, RInt(20)))
BumpView(v, by) == CASE D(sid, 14, 0, 2) = 0 -> [v EXCEPT !.cm = BumpPose(@, by)]
                     [] D(sid, 14, 0, 2) = 1 -> [v EXCEPT !.tm = BumpPose(@, by)]
                     [] OTHER -> [v EXCEPT !.feats = BumpFeats(@, by)]
Changed(v, by) ==
  LET ty == Type(sid) part == D(sid, 15, 0, 3) IN
  CASE ty = "intr" -> [v EXCEPT !.intr = Bump(@, D(sid, 11, 1, 4), by)]
    [] ty \in {"corr2", "corr3"} -> [v EXCEPT !.feat = BumpFeat(@, by)]
    [] ty \in {"obs2", "obs3"} -> BumpView(v, by)
    [] ty \in {"kin2", "kin3"} -> (CASE part = 0 -> [v EXCEPT !.cj = BumpJ(@, by)] [] part = 1 -> [v EXCEPT !.tj = BumpJ(@, by)] [] OTHER -> [v EXCEPT !.feats = BumpFeats(@, by)])
    [] ty = "meas" -> (CASE part = 0 -> [v EXCEPT !.cj = BumpJ(@, by)] [] part = 1 -> [v EXCEPT !.tj = BumpJ(@, by)] [] OTHER -> [v EXCEPT !.x = BumpPose(@, by)])
    [] OTHER -> (CASE part = 0 -> [v EXCEPT !.cam = BumpPose(@, by)]
                   [] part = 1 -> [v EXCEPT !.tgt = BumpPose(@, by)]
                   [] part = 2 /\ ty = "hep2" -> [v EXCEPT !.intr = Bump(@, D(sid, 11, 1, 4), by)]
                   [] OTHER -> [v EXCEPT !.obs[D(sid, 16, 1, Len(v.obs))] = BumpView(@, by)])
\* how the second value comes about
How(s) == <<"same", "hidden", "changed", "changed", "changed", "changed", "related", "related">>[D(s, 17, 1, 8)]
\* several parts change together: two poses move by the same motion or trade places, a list is turned round, joints pass from one chain to the other
Rev(fs) == [i \in 1..Len(fs) |-> fs[Len(fs) + 1 - i]]
Motion == DrawPose(sid, 800, 20)
RelView(v) == CASE D(sid, 18, 0, 4) = 0 -> [v EXCEPT !.cm = PMul(Motion, @), !.tm = PMul(Motion, @)]
                [] D(sid, 18, 0, 4) = 1 -> [v EXCEPT !.cm = PMul(@, Motion), !.tm = PMul(@, Motion)]
                [] D(sid, 18, 0, 4) = 2 -> [v EXCEPT !.cm = v.tm, !.tm = v.cm]
                [] D(sid, 18, 0, 4) = 3 -> [v EXCEPT !.cm = PInv(@), !.tm = PInv(@)]
                [] OTHER -> [v EXCEPT !.feats = Rev(@)]
Related(v) ==
  LET ty == Type(sid) IN
  CASE ty = "intr" -> [v EXCEPT !.intr = <<@[2], @[1], @[4], @[3]>>]
    [] ty = "corr3" -> [v EXCEPT !.feat = [o |-> @.p, p |-> @.o]]
    [] ty = "corr2" -> [v EXCEPT !.feat.o = <<@[2], @[1]>>, !.feat.p = <<@[2], @[1], @[3]>>]
    [] ty \in {"obs2", "obs3"} -> RelView(v)
    [] ty \in {"kin2", "kin3"} -> IF D(sid, 18, 0, 2) = 0 THEN [v EXCEPT !.feats = Rev(@)] ELSE IF D(sid, 18, 0, 2) = 1 \/ Len(v.tj) = 0 THEN [v EXCEPT !.cj = v.tj, !.tj = v.cj] ELSE [v EXCEPT !.cj = Append(@, v.tj[1]), !.tj = Tail(@)]
    [] ty = "meas" -> IF D(sid, 18, 0, 2) = 0 \/ Len(v.tj) = 0 THEN [v EXCEPT !.cj = v.tj, !.tj = v.cj] ELSE [v EXCEPT !.cj = Append(@, v.tj[1]), !.tj = Tail(@)]
    [] OTHER -> CASE D(sid, 19, 0, 3) = 0 -> [v EXCEPT !.cam = PMul(Motion, @), !.tgt = PMul(Motion, @)]
                  [] D(sid, 19, 0, 3) = 1 -> [v EXCEPT !.cam = v.tgt, !.tgt = v.cam]
                  [] D(sid, 19, 0, 3) = 2 /\ Len(v.obs) > 1 -> [v EXCEPT !.obs = Rev(@)]
                  [] OTHER -> [v EXCEPT !.obs = [i \in 1..Len(@) |-> RelView(@[i])]]
Listy == D(sid, 12, 0, 4) \in {0, 1}
CopyIt == /\ phase = "copy"
          /\ vals' = Append(vals, CASE How(sid) = "same" -> vals[1]
                                    [] How(sid) = "hidden" -> IF Listy \/ Type(sid) = "intr" THEN vals[1] ELSE Strict(Changed(vals[1], Hidden))
                                    [] How(sid) = "related" -> Strict(Related(vals[1]))
                                    [] OTHER -> Strict(Changed(vals[1], Amount)))
          /\ phase' = "ready" /\ UNCHANGED <<sid, chain, total>>
ViewJ(v) == [cm |-> DecPose(v.cm), tm |-> DecPose(v.tm), feats |-> FeatsJ(v.feats)]
ValueJ(v) == LET ty == Type(sid) IN
  CASE ty = "intr" -> [intr |-> Dec(v.intr)]
    [] ty \in {"corr2", "corr3"} -> [feat |-> FeatsJ(<<v.feat>>)[1]]
    [] ty \in {"obs2", "obs3"} -> ViewJ(v)
    [] ty \in {"kin2", "kin3"} -> [feats |-> FeatsJ(v.feats), cj |-> Dec(v.cj), tj |-> Dec(v.tj)]
    [] ty = "meas" -> [x |-> DecPose(v.x), cj |-> Dec(v.cj), tj |-> Dec(v.tj)]
    [] ty = "hep2" -> [intr |-> Dec(v.intr), cam |-> DecPose(v.cam), tgt |-> DecPose(v.tgt), obs |-> [i \in 1..Len(v.obs) |-> ViewJ(v.obs[i])]]
    [] OTHER -> [cam |-> DecPose(v.cam), tgt |-> DecPose(v.tgt), obs |-> [i \in 1..Len(v.obs) |-> ViewJ(v.obs[i])]]
Base == [id |-> "C22-" \o Kind(sid) \o "-" \o ToString(sid), op |-> Kind(sid)]
\* six-vectors turn by anything from nothing to more than a full turn
Turn(s, k) == LET v == V3(s, k, 40, 10) style == D(s, k + 5, 0, 5) IN
   CASE style = 0 -> VScale(RParse("1e-9"), v) [] style = 1 -> VScale(RParse("1e-6"), v) [] style = 2 -> VZero [] OTHER -> v
Case == CASE Kind(sid) = "convert" -> Base @@ [chain |-> [i \in 1..Len(chain) |-> DecPose(chain[i])], v |-> Dec(V3(sid, 300, 30, 20))]
          [] Kind(sid) = "sixvec" -> Base @@ [r |-> Dec(Turn(sid, 310)), t |-> Dec(V3(sid, 320, 30, 20)), v |-> Dec(V3(sid, 300, 30, 20))]
          [] Kind(sid) = "quat" -> Base @@ [q |-> Dec(DrawQ(sid, 330)), d |-> Dec(Turn(sid, 340))]
          [] OTHER -> Base @@ [type |-> Type(sid), a |-> ValueJ(vals[1]), b |-> ValueJ(vals[2])]
ReadyNow == \/ Kind(sid) = "convert" /\ Len(chain) = Len0(sid)
            \/ Kind(sid) \in {"sixvec", "quat"}
            \/ phase = "ready"
Emit == phase \in {"start", "ready"} /\ ReadyNow = TRUE /\ PrintT("CASE " \o ToJson(Case)) /\ phase' = "done" /\ UNCHANGED <<sid, chain, total, vals>>
Next == Compose \/ Build \/ CopyIt \/ Emit
Spec == Init /\ [][Next]_vars
\* ---- what the model promises ----
\* composition keeps handedness, and undoing it step by step from the left leads back
Rigid == IsRotation(QMat(total.q), RZero)
RECURSIVE Undo(_, _)
Undo(t, i) == IF i > Len(chain) THEN t ELSE Undo(PMul(PInv(chain[i]), t), i + 1)
Undone == PEq(Undo(total, 1), PId)
\* the axis-angle form of a quaternion step is Rodrigues' formula
StepIsTurn == (phase = "start" /\ Kind(sid) = "quat" /\ chain = <<>>) =>
   LET d == Turn(sid, 340) IN MNear(QMat(QStep(QId, d)), AxisAngle(VScale(RInt(2), d)), RParse("1e-35"))
=============================================================================
