------------------------------ MODULE HomoGen -------------------------------
(***************************************************************************)
(* A planar target is drawn and photographed feature by feature through an *)
(* exact homography (2D) or a pose (3D); some features are displaced; a    *)
(* sampler is chosen and the homography error asked for.  Other scenarios  *)
(* ask the samplers alone, with fitting and with unfitting sizes.          *)
(***************************************************************************)
EXTENDS Homo, Draws
VARIABLES sid, phase, h, feats
vars == <<sid, phase, h, feats>>
Kind(s) == <<"err2", "err3", "err2", "grid", "err2", "random", "err3", "cover">>[1 + (s % 8)]
Is3(s) == Kind(s) = "err3"
Errors(s) == Kind(s) \in {"err2", "err3"}
GridLike(s) == C(s, 1, 55)
Rows(s) == D(s, 2, 2, 5)
Cols(s) == IF Rows(s) < 4 THEN D(s, 3, 4, 6) ELSE D(s, 3, 2, 5)
Stride(s) == PickD(s, 4, <<1, 1, 2, 4, 3>>)
Samples(s) == D(s, 5, 4, 6)
\* a set of correspondences can be too small by one, or have features beyond what the sampler knows
Short(s) == C(s, 6, 12)
Count(s) == IF GridLike(s) THEN (IF Short(s) THEN Rows(s) * Cols(s) * Stride(s) - 1 ELSE Rows(s) * Cols(s) * Stride(s))
            ELSE IF Short(s) THEN 2 * Samples(s) - 1 ELSE 2 * Samples(s) + D(s, 7, 0, 8)
Init == sid \in 1..N /\ phase = "start" /\ h = <<>> /\ feats = <<>>
\* a 3D sensor sees in every direction
Side == IF Is3(sid) /\ C(sid, 35, 40) THEN -1 ELSE 1
XD == Pose(DrawQ(sid, 20), << F(sid, 30, -5, 5, 20), F(sid, 31, -5, 5, 20), RMul(RInt(Side), F(sid, 32, 30, 60, 20)) >>)
\* the picture of the plane z = Z0 under a pose, a camera and a skew
Z0 == IF C(sid, 33, 30) THEN F(sid, 34, -5, 5, 40) ELSE RZero
PoseH(X) == LET m == X.m t == Strict(VAdd(X.t, VScale(Z0, << m[1][3], m[2][3], m[3][3] >>))) IN
            << << m[1][1], m[1][2], t[1] >>, << m[2][1], m[2][2], t[2] >>, << m[3][1], m[3][2], t[3] >> >>
KH == LET k == DrawIntr(sid, 40) IN << << k[1], F(sid, 45, -20, 20, 1), k[3] >>, << RZero, k[2], k[4] >>, << RZero, RZero, ROne >> >>
AnyH == << << F(sid, 50, 300, 900, 1), F(sid, 51, -300, 300, 1), F(sid, 52, 0, 1000, 1) >>,
           << F(sid, 53, -300, 300, 1), F(sid, 54, -900, -300, 1), F(sid, 55, 0, 1000, 1) >>,
           << F(sid, 56, -60, 60, 100), F(sid, 57, -60, 60, 100), ROne >> >>
Sharp(X) == RLt(RFrac(1, 4), RAbs(X.m[3][3]))
Choose == /\ phase = "start"
          /\ IF Errors(sid)
             THEN LET X == PM(XD) IN
                  IF ~Is3(sid) /\ C(sid, 58, 40) THEN h' = Strict(AnyH) /\ phase' = "shoot"
                  ELSE /\ h' = Strict(IF Is3(sid) THEN PoseH(X) ELSE MMul(KH, PoseH(X)))
                       /\ phase' = IF Sharp(X) = TRUE THEN "shoot" ELSE "done"
             ELSE h' = h /\ phase' = "ready"
          /\ UNCHANGED <<sid, feats>>
Pitch == PickD(sid, 60, << RFrac(1, 10), RFrac(3, 25), RFrac(7, 100) >>)
Elem(e) == << VInt(0, 0, 0), <<RFrac(1, 25), RZero, RZero>>, <<RFrac(1, 25), RFrac(-1, 25), RZero>>, <<RZero, RFrac(-1, 25), RZero>> >>[1 + e]
PtAt(i) == IF GridLike(sid)
           THEN LET g == i \div Stride(sid) e == Strict(Elem(i % Stride(sid))) IN
                << RAdd(RMul(Pitch, RInt(g % Cols(sid))), e[1]), RAdd(RMul(Pitch, RInt(Rows(sid) - 1 - (g \div Cols(sid)))), e[2]), Z0 >>
           ELSE << F(sid, 100 + 2*i, -24, 24, 40), F(sid, 101 + 2*i, -24, 24, 40), Z0 >>
\* displaced: never the grid corners, except in the scenarios that displace anything
Wild == C(sid, 61, 20)
Corner(i) == i \in Corners(Rows(sid), Cols(sid), Stride(sid))
Displaced(i) == C(sid, 200 + i, 30) /\ (Wild \/ (GridLike(sid) /\ ~Corner(i)))
Step(i) == LET u == IF Is3(sid) THEN 1000 ELSE 10 IN << F(sid, 300 + 2*i, -400, 400, u), F(sid, 301 + 2*i, -400, 400, u) >>
Shoot == /\ phase = "shoot" /\ Len(feats) < Count(sid)
         /\ feats' = Append(feats, LET i == Len(feats) p == Strict(PtAt(i)) d == IF Displaced(i) THEN Step(i) ELSE << RZero, RZero >>
                                       v == Strict(MVec(h, H3(p))) IN
              Strict([p |-> p, o |-> IF Is3(sid) THEN << RAdd(v[1], d[1]), RAdd(v[2], d[2]), v[3] >>
                              ELSE << RAdd(RDiv(v[1], v[3]), d[1]), RAdd(RDiv(v[2], v[3]), d[2]) >>]))
         /\ UNCHANGED <<sid, phase, h>>
Shot == phase = "shoot" /\ Len(feats) = Count(sid) /\ phase' = "ready" /\ UNCHANGED <<sid, h, feats>>
Sampler == IF Errors(sid) THEN (IF GridLike(sid) THEN [kind |-> "grid", rows |-> Rows(sid), cols |-> Cols(sid), stride |-> Stride(sid)]
                                ELSE [kind |-> "random", n |-> IF Short(sid) THEN 2 * Samples(sid) ELSE Count(sid), samples |-> Samples(sid), seed |-> D(sid, 70, 0, 9999)])
           ELSE IF Kind(sid) = "grid" THEN [kind |-> "grid", rows |-> D(sid, 71, 1, 9), cols |-> D(sid, 72, 1, 9), stride |-> D(sid, 73, 1, 5)]
           ELSE LET m == IF Kind(sid) = "cover" THEN D(sid, 74, 4, 12) ELSE D(sid, 74, 2, 12) IN
                [kind |-> "random", n |-> IF Kind(sid) = "cover" THEN m + D(sid, 75, 0, 8) ELSE D(sid, 75, 3, 40), samples |-> m, seed |-> D(sid, 76, 0, 99999)]
Case == [id |-> "C13-" \o Kind(sid) \o "-" \o ToString(sid), op |-> "homo" \o (IF Errors(sid) THEN "err" ELSE "sample"), sampler |-> Sampler, many |-> IF Kind(sid) = "cover" THEN 400 ELSE 1]
        @@ (IF Errors(sid) THEN [dim |-> IF Is3(sid) THEN 3 ELSE 2, feats |-> [j \in 1..Len(feats) |-> [o |-> Dec(feats[j].o), p |-> Dec(feats[j].p)]]] ELSE <<>>)
Emit == phase = "ready" /\ PrintT("CASE " \o ToJson(Case)) /\ phase' = "done" /\ UNCHANGED <<sid, h, feats>>
Next == Choose \/ Shoot \/ Shot \/ Emit
Spec == Init /\ [][Next]_vars
\* ---- what the model promises ----
Image(f) == IF Is3(sid) THEN << RDiv(f.o[1], f.o[3]), RDiv(f.o[2], f.o[3]) >> ELSE f.o
\* every feature is on the target's side of the sensor
Ahead == \A j \in 1..Len(feats) : RLt(RFrac(1, 5), RMul(RInt(Side), Depth(h, feats[j].p)))
\* four undisplaced features in general position determine the homography that took the picture
Determined == phase = "ready" /\ Errors(sid) => LET good == SelectSeq(feats, LAMBDA f : Image(f) = Hom(h, f.p)) IN
   Len(good) >= 4 => LET a == Strict([k \in 1..4 |-> good[k].p]) b == Strict([k \in 1..4 |-> Image(good[k])]) IN
      General(a) => Scale1(Through(a, b)) = Scale1(h)
\* the corners of a grid are four different features of it
CornersFit == Kind(sid) = "grid" /\ phase = "ready" => LET s == Sampler c == Corners(s.rows, s.cols, s.stride) IN
   GridOk(s.rows, s.cols) => Cardinality(c) = 4 /\ \A i \in c : i >= 0 /\ i < s.rows * s.cols * s.stride /\ i % s.stride = 0
=============================================================================
