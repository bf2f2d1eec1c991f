----------------------------- MODULE ToolTrace ------------------------------
(* A recorded run: read -> refused | solved -> shown -> printed *)
EXTENDS Tool, Stats, Proj, TraceIO
VARIABLES l, ph, r
vars == <<l, ph, r>>
T == Trace[l]
O == T.out
Mat(p) == LET m == PM(ReadPose(p)) IN Strict([m |-> [i \in 1..3 |-> [k \in 1..3 |-> RRound(m.m[i][k], Grid30)]], t |-> m.t])
Mats(s) == Strict([k \in 1..Len(s) |-> Mat(s[k])])
\* the errors the library reports for a picture, if it was asked (that they are right is C10)
Errs(code) == SelectSeq(O.homog, LAMBDA h : h.code = code)
NearView(p) == p.off /\ Errs(p.code) # <<>> /\ LET e == Errs(p.code)[1].errs IN
   FiniteSeq(e) /\ RLe(RDiv(RSum(NumV(e)), RInt(Len(e))), RInt(5))
ReadPics(in, pts) == [code \in {in.pictures[k].code : k \in 1..Len(in.pictures)} |->
   LET p == in.pictures[CHOOSE k \in 1..Len(in.pictures) : in.pictures[k].code = code] IN
   Strict([how |-> p.how, clean |-> p.clean, near |-> NearView(p), w |-> p.w, h |-> p.h, seen |-> {[u |-> NumV(p.found[i].u), x |-> pts[p.found[i].id + 1]] : i \in 1..Len(p.found)}])]
ReadRun(in) == LET pts == Strict([k \in 1..Len(in.points) |-> NumV(in.points[k])]) IN
  Strict([tool |-> in.tool, thr |-> CASE in.thr = "-1" -> "none" [] in.thr = "5" -> "some" [] OTHER -> "all", fix |-> in.fix, damaged |-> Len(in.damage.path) > 0, fail |-> in.fail,
   tguess |-> Mat(in.tguess), pics |-> ReadPics(in, pts),
   cams |-> [c \in 1..Len(in.cams) |-> LET k == in.cams[c] IN Strict([intr |-> NumV(k.intr), guess |-> Mat(k.guess), state |-> k.state,
              entries |-> [i \in 1..Len(k.entries) |-> [code |-> k.entries[i].code, pose |-> Mat(k.entries[i].pose), gone |-> k.entries[i].gone]]])],
   ca |-> Mat(in.ans.ca), ta |-> Mat(in.ans.ta), tb |-> Mat(in.ans.tb), a |-> Mats(in.ans.a), b |-> Mats(in.ans.b), pnps |-> Mats(in.ans.pnps), nums |-> NumV(in.ans.nums),
   heads |-> [k \in 1..Len(in.ans.heads) |-> [conv |-> in.ans.heads[k].conv, init |-> Num(in.ans.heads[k].init), final |-> Num(in.ans.heads[k].final)]]])
Init == l \in 1..Len(Trace) /\ ph = "given" /\ r = <<>>
Read == ph = "given" /\ O.status = "ok" /\ ph' = "read" /\ r' = ReadRun(T.in) /\ UNCHANGED l
Lost == ph = "given" /\ O.status # "ok" /\ Clause(T.id, "no answer: " \o O.status, FALSE) /\ UNCHANGED vars
Solves == SelectSeq(O.events, LAMBDA e : e.e = "solve")
\* ---- refused ----
Refused == /\ ph = "read" /\ ~Good(r)
           /\ Clause(T.id, "ended well although it could not do its work", O.rc = "bad")
           /\ Clause(T.id, "something was solved without what it needs", Unstartable(r) => Solves = <<>>)
           /\ Accept(T.id) /\ ph' = "end" /\ UNCHANGED <<l, r>>
\* ---- solved ----
T9 == RParse("1e-9")
NearP(x, p) == Len(x) = 12 /\ FiniteSeq(x) /\ MPNear(ReadMPose(x), p, T9, RMul(T9, RAdd(ROne, RSqrt(VSq(p.t)))))
NearPs(xs, ps) == Len(xs) = Len(ps) /\ \A k \in 1..Len(ps) : NearP(xs[k], ps[k])
NearV(x, v) == Len(x) = Len(v) /\ FiniteSeq(x) /\ \A k \in 1..Len(v) : RNearRel(Num(x[k]), v[k], T9)
MaybeP(x, p) == IF p = None THEN TRUE ELSE NearP(x, p[1])
\* (points and pixels of single precision are enough for OpenCV)
SameFeats(o, seen, tol) == LET us == Strict([k \in 1..Len(o) |-> IF FiniteSeq(o[k].u) /\ FiniteSeq(o[k].x) THEN [u |-> NumV(o[k].u), x |-> NumV(o[k].x)] ELSE <<>>]) IN
   /\ Len(o) = Cardinality(seen)
   /\ \A f \in seen : \E k \in 1..Len(us) : us[k] # <<>> /\ VNear(us[k].x, f.x, tol) /\ RNearRel(us[k].u[1], f.u[1], tol) /\ RNearRel(us[k].u[2], f.u[2], tol)
Asked(p, e) ==
   LET w == " (" \o p.kind \o ")" IN
   /\ Clause(T.id, "number of intrinsics" \o w, Len(e.intr) = Len(p.intr))
   /\ Clause(T.id, "intrinsics" \o w, \A k \in 1..Len(p.intr) : NearV(e.intr[k], p.intr[k]))
   /\ Clause(T.id, "guess or pose of a camera" \o w, NearPs(e.cam, p.cam))
   /\ Clause(T.id, "guess of the target" \o w, p.loose \/ NearPs(e.tgt, p.tgt))
   /\ Clause(T.id, "pose of the base" \o w, MaybeP(e.base, p.base))
   /\ Clause(T.id, "residual threshold" \o w, RIsNum(e.thr) /\ RNearRel(Num(e.thr), p.thr, T9))
   /\ Clause(T.id, "what is held fixed" \o w, e.fix = p.fix)
   /\ Clause(T.id, "number of observations" \o w, Len(e.obs) = Len(p.obs))
   /\ \A k \in 1..Len(p.obs) : LET o == e.obs[k] v == p.obs[k] IN
        /\ Clause(T.id, "observation of another camera" \o w, o.c = v.c /\ o.i = v.i)
        /\ Clause(T.id, "pose of the camera mount" \o w, MaybeP(o.cm, v.cm))
        /\ Clause(T.id, "pose of the target mount" \o w, MaybeP(o.tm, v.tm))
        /\ Clause(T.id, "features of another picture" \o w, SameFeats(o.feats, r.pics[v.code].seen, IF p.kind = "cvintr" THEN RParse("1e-6") ELSE T9))
OfKind(ps, k) == SelectSeq(ps, LAMBDA p : p.kind = k)
Kinds == {"hand_eye", "moving", "only", "wrist_only", "pnp", "mpnp", "intr", "valid", "noise", "cvintr", "cvpnp"}
\* the calibration and the comparisons, each kind in its order
Solved == /\ ph = "read" /\ Good(r)
          /\ Clause(T.id, "a run that could do its work ended in an error", O.rc = "good")
          /\ TRUE = (LET ps == Strict(Problems(r)) es == Solves IN
               \A k \in Kinds : LET p == OfKind(ps, k) e == OfKind(es, k) IN
                 /\ Clause(T.id, "number of solves (" \o k \o ")", Len(e) = Len(p))
                 /\ \A i \in 1..Len(p) : Asked(p[i], e[i]))
          /\ (r.tool = "intr" => LET e == OfKind(Solves, "cvintr")[1] first == r.pics[Readable(r, 1)[1].code] IN
                Clause(T.id, "size of the image", e.base = <<first.w, first.h>>))
          /\ ph' = "solved" /\ UNCHANGED <<l, r>>
\* ---- shown ----
Shows == SelectSeq(O.events, LAMBDA e : e.e = "show")
RECURSIVE Dedup(_)
Dedup(s) == IF Len(s) < 2 THEN s ELSE IF s[Len(s)] = s[Len(s) - 1] THEN Dedup(SubSeq(s, 1, Len(s) - 1)) ELSE Append(Dedup(SubSeq(s, 1, Len(s) - 1)), s[Len(s)])
\* where points are seen: in whole pixels, and whether they are surely in the picture
Spot(k, X, x) == LET p == Strict(MPApply(X, x)) u == Strict(Project(k, p)) far == RInt(100000) IN
   IF RLt(far, RAbs(u[1])) \/ RLt(far, RAbs(u[2])) THEN [u |-> -1000, v |-> -1000, front |-> FALSE]
   ELSE [u |-> RFloor(u[1]), v |-> RFloor(u[2]), front |-> RLt(RFrac(1, 10), p[3])]
Spots(k, X, xs) == Strict({Spot(k, X, x) : x \in xs})
At8(m, s) == m[1] - s.u \in -8..8 /\ m[2] - s.v \in -8..8
\* the marks in a picture are at the points, and at all of them that are in it
Marked(show, w, h, spots) ==
   /\ \A k \in 1..Len(show.marks) : \E s \in spots : At8(show.marks[k], s)
   /\ \A s \in spots : (s.front /\ s.u \in 4..(w - 6) /\ s.v \in 4..(h - 6)) => \E k \in 1..Len(show.marks) : At8(show.marks[k], s)
\* the windows in which each comparison is shown
RECURSIVE Groups(_)
Groups(s) == IF s = <<>> THEN <<>> ELSE LET g == Groups(SubSeq(s, 1, Len(s) - 1)) n == Len(g) e == s[Len(s)] IN
   IF n > 0 /\ g[n][1].code = e.code THEN [g EXCEPT ![n] = Append(@, e)] ELSE Append(g, <<e>>)
Xs(code) == {f.x : f \in r.pics[code].seen}
\* the points by the calibration, and by the comparison, are drawn over the picture
DrawnIn(g, pic, spots) == \E k \in 1..Len(g) : Marked(g[k], pic.w, pic.h, spots)
Drawn == LET x == Strict(ShownPics(r)) gs == Strict(Groups(Shows)) cs == Strict(Compared(r)) u == Used(r, 1) IN
   \A k \in 1..Len(x) : LET g == gs[Len(gs) - Len(x) + k] pic == r.pics[x[k]] IN
     IF r.tool \in HandEye
     THEN Clause(T.id, "the points drawn in a picture are not where the result has them", DrawnIn(g, pic, Spots(r.cams[1].intr, Strict(Calibrated(r, u[k])), Xs(x[k]))))
     ELSE LET c == cs[k] xs == Strict(UNION {Xs(r.cams[c.f[j]].entries[c.i].code) : j \in 1..Len(c.f)}) i == r.cams[c.f[1]].intr IN
          /\ Clause(T.id, "the points drawn in a picture are not where the result has them", c.loose \/ DrawnIn(g, pic, Spots(i, Seen1(r, c), xs)))
          /\ Clause(T.id, "the points drawn in a picture are not where the comparison has them", DrawnIn(g, pic, Spots(i, Answered(r, c, k), xs)))
\* a comparison may be shown in several windows
Showed == /\ ph = "solved"
          /\ TRUE = (LET x == Strict(ShownPics(r)) s == Strict(Dedup([k \in 1..Len(Shows) |-> Shows[k].code])) IN
               (r.tool \in HandEye \cup {"moving", "steps", "mpnp"}) =>
               Clause(T.id, "a result is compared with another picture than its own", Len(s) >= Len(x) /\ SubSeq(s, Len(s) - Len(x) + 1, Len(s)) = x))
          /\ ((r.tool \in HandEye \cup {"moving", "steps", "mpnp"}) => Drawn)
          /\ ph' = "shown" /\ UNCHANGED <<l, r>>
\* ---- printed ----
L == O.lines
At(lines, w) == SelectSeq([i \in 1..Len(lines) |-> i], LAMBDA i : lines[i].w = w)
\* six digits
Tol6 == RParse("1.1e-5")
Printed(s, v) == RIsNum(s) /\ RNearRel(Num(s), v, Tol6)
Rounded(s, v) == RIsNum(s) /\ RNear(Num(s), v, RMul(Tol6, RAdd(RAbs(v), RParse("1e-9"))))
Row == "# # # #"
Deg == RDiv(RInt(180), RParse("3.14159265358979323846"))
RotX(a) == LET c == Strict(RCos(a)) s == Strict(RSin(a)) IN << VInt(1, 0, 0), <<RZero, c, RNeg(s)>>, <<RZero, s, c>> >>
RotY(a) == LET c == Strict(RCos(a)) s == Strict(RSin(a)) IN << <<c, RZero, s>>, VInt(0, 1, 0), <<RNeg(s), RZero, c>> >>
RotZ(a) == LET c == Strict(RCos(a)) s == Strict(RSin(a)) IN << <<c, RNeg(s), RZero>>, <<s, c, RZero>>, VInt(0, 0, 1) >>
Following(i, w) == LET c == SelectSeq([k \in 1..6 |-> i + k], LAMBDA k : k <= Len(L) /\ L[k].w = w) IN IF c = <<>> THEN 0 ELSE c[1]
Entry(m, i, k) == IF k = 4 THEN m.t[i] ELSE m.m[i][k]
RpyNear(n, m) == /\ \A k \in 1..3 : RIsNum(n[(2 * k) - 1]) /\ RIsNum(n[2 * k]) /\ RNear(Num(n[2 * k]), RMul(Deg, Num(n[(2 * k) - 1])), RParse("2e-3"))
                 /\ MNear(Strict(MMul(RotZ(Num(n[5])), Strict(MMul(RotY(Num(n[3])), RotX(Num(n[1])))))), m, RParse("5e-5"))
QNear(n, m) == LET q == <<Num(n[4]), Num(n[1]), Num(n[2]), Num(n[3])>> IN RNear(QSq(q), ROne, RParse("1e-4")) /\ MNear(QMat(q), m, RParse("5e-5"))
BlockAt(i, b) ==
   LET w == " under " \o b.w IN
   /\ Clause(T.id, "number in a heading" \o w, Len(L[i].n) = Len(b.n) /\ \A k \in 1..Len(b.n) : Printed(L[i].n[k], RInt(b.n[k])))
   /\ Clause(T.id, "a transform is missing" \o w, i + 4 <= Len(L) /\ \A k \in 1..4 : L[i + k].w = Row)
   /\ b.loose \/ Clause(T.id, "another transform" \o w, \A k \in 1..3 : \A m \in 1..4 : Printed(L[i + k].n[m], Entry(b.pose, k, m)))
   /\ b.loose \/ LET x == Following(i + 4, "XYZ=\"# # #\"") y == Following(i + 4, "RPY=\"#(# DEG) #(# DEG) #(# DEG)\"") z == Following(i + 4, "QXYZW=\"# # # #\"") IN
        /\ Clause(T.id, "the URDF format is missing" \o w, x > 0 /\ y > 0 /\ z > 0)
        /\ Clause(T.id, "another translation in the URDF format" \o w, \A k \in 1..3 : Printed(L[x].n[k], b.pose.t[k]))
        /\ Clause(T.id, "another roll, pitch and yaw in the URDF format" \o w, RpyNear(L[y].n, b.pose.m))
        /\ Clause(T.id, "another quaternion in the URDF format" \o w, FiniteSeq(L[z].n) /\ QNear(L[z].n, b.pose.m))
Transforms == LET bs == Strict(Blocks(r)) IN
   \A h \in Headings(r) : LET e == SelectSeq(bs, LAMBDA b : b.w = h) at == At(L, h) IN
      /\ Clause(T.id, "number of transforms under " \o h, Len(at) = Len(e))
      /\ \A k \in 1..Len(e) : BlockAt(at[k], e[k])
Outcomes == LET hs == Reported(r) c == At(L, "DID CONVERGE?: #") i == At(L, "INITIAL COST?: # (PIXELS PER DOT)") f == At(L, "FINAL COST?: # (PIXELS PER DOT)") IN
   /\ Clause(T.id, "number of outcomes", Len(c) = Len(hs) /\ Len(i) = Len(hs) /\ Len(f) = Len(hs))
   /\ \A k \in 1..Len(hs) : /\ Clause(T.id, "convergence", Printed(L[c[k]].n[1], IF hs[k].conv THEN ROne ELSE RZero))
                            /\ Clause(T.id, "initial cost", Printed(L[i[k]].n[1], RSqrt(hs[k].init)))
                            /\ Clause(T.id, "final cost", Printed(L[f[k]].n[1], RSqrt(hs[k].final)))
Turn(a, b) == RMul(Deg, Angle(Chord(Strict(MMul(MT(a.m), b.m)))))
Length(v) == RSqrt(VSq(v))
Differences == LET ds == Strict(Diffs(r)) s == At(L, "DELTA S: # AT XYZ=\"# # #\"") a == At(L, "DELTA A: # AND RPY=\"#(# DEG) #(# DEG) #(# DEG)\"") IN
   /\ Clause(T.id, "number of differences", Len(s) = 2 * Len(ds) /\ Len(a) = 2 * Len(ds))
   /\ \A k \in 1..Len(ds) : ds[k].loose \/
        LET d == ds[k] apart == Strict(VSub(d.two.t, d.one.t)) rel == Strict(MPMul(MPInv(d.one), d.two)) turn == Strict(Turn(d.one, d.two))
            Shift(i, v) == Printed(L[i].n[1], Length(v)) /\ \A j \in 1..3 : Printed(L[i].n[j + 1], v[j]) IN
        /\ Clause(T.id, "distance of two poses", Shift(s[(2 * k) - 1], apart) /\ Shift(s[2 * k], rel.t))
        /\ Clause(T.id, "turn between two poses", \A j \in {(2 * k) - 1, 2 * k} : RIsNum(L[a[j]].n[1]) /\ RNear(Num(L[a[j]].n[1]), turn, RParse("2e-3")) /\ RpyNear(Tail(L[a[j]].n), rel.m))
\* mean, and deviation of the sample or of the population
MeanDev(m, d, xs) == LET n == Len(xs) v == Strict(Var(xs)) IN
   /\ RIsNum(m) /\ RNear(Num(m), Mean(xs), RMul(RParse("3e-5"), RAdd(Mean(xs), RParse("1e-7"))))
   /\ n = 1 \/ (RIsNum(d) /\ LET ok(s) == RNear(Num(d), s, RMul(RParse("1e-4"), RAdd(s, RMul(RParse("0.01"), Mean(xs))))) IN ok(RSqrt(v)) \/ ok(RSqrt(RMul(v, RFrac(n, n - 1)))))
Lowest(xs) == LET RECURSIVE F(_) F(k) == IF k = 1 THEN xs[1] ELSE RMin(F(k - 1), xs[k]) IN F(Len(xs))
Highest(xs) == LET RECURSIVE F(_) F(k) == IF k = 1 THEN xs[1] ELSE RMax(F(k - 1), xs[k]) IN F(Len(xs))
SetSeq(S) == LET RECURSIVE F(_) F(q) == IF q = {} THEN <<>> ELSE LET x == CHOOSE y \in q : TRUE IN <<x>> \o F(q \ {x}) IN F(S)
HandEyeStats == (r.tool \in HandEye) =>
   LET u == Used(r, 1) X == Strict([k \in 1..Len(u) |-> Calibrated(r, u[k])]) Y == [k \in 1..Len(u) |-> r.pnps[1 + ((k - 1) % Len(r.pnps))]]
       pos == Strict([k \in 1..Len(u) |-> Length(MPMul(MPInv(X[k]), Y[k]).t)]) ang == Strict([k \in 1..Len(u) |-> Turn(X[k], Y[k])])
       off == Strict(Cat([k \in 1..Len(u) |-> LET s == Strict(SetSeq(r.pics[u[k].code].seen)) IN [i \in 1..Len(s) |-> Length(VSub(Strict(BackProject(r.cams[1].intr, X[k], s[i].u)), s[i].x))]]))
       m == At(L, "MEAN (M): #") d == At(L, "STD. DEV. (M): #") am == At(L, "MEAN (DEG): #") ad == At(L, "STD. DEV. (DEG): #")
       e == At(L, "MEAN +/- STD. DEV. (M): # +/- #") lo == At(L, "MIN (M): #") hi == At(L, "MAX (M): #") IN
   /\ Clause(T.id, "the statistics are missing", Len(m) = 1 /\ Len(d) = 1 /\ Len(am) = 1 /\ Len(ad) = 1 /\ Len(e) = 1 /\ Len(lo) = 1 /\ Len(hi) = 1)
   /\ Clause(T.id, "statistics of the position", MeanDev(L[m[1]].n[1], L[d[1]].n[1], pos))
   /\ Clause(T.id, "statistics of the orientation", MeanDev(L[am[1]].n[1], L[ad[1]].n[1], ang))
   /\ Clause(T.id, "statistics of the projection error", MeanDev(L[e[1]].n[1], L[e[1]].n[2], off))
   /\ Clause(T.id, "least and greatest projection error", Printed(L[lo[1]].n[1], Lowest(off)) /\ Printed(L[hi[1]].n[1], Highest(off)) /\ Rounded(L[hi[1]].n[1], Highest(off)))
Nu(k) == r.nums[k + 1]
NextIs(i, w) == LET c == SelectSeq([k \in 1..4 |-> i + k], LAMBDA k : k <= Len(L) /\ L[k].w = w) IN IF c = <<>> THEN 0 ELSE c[1]
Values(who, at, first, dist) == LET h == At(L, who \o " INTRINSICS:") g == At(L, who \o " DISTORTION:") IN
   /\ Clause(T.id, "the intrinsics are missing: " \o who, Len(h) = 1 /\ Len(g) = 1)
   /\ LET a == NextIs(h[1], "FX = # FY = #") b == NextIs(h[1], "CX = # CY = #") c == NextIs(g[1], "K# = # K# = # P# = # P# = # K# = #") IN
      /\ Clause(T.id, "the values are missing: " \o who, a > 0 /\ b > 0 /\ c > 0)
      /\ Clause(T.id, "intrinsics printed: " \o who, Rounded(L[a].n[1], Nu(first)) /\ Rounded(L[a].n[2], Nu(first + 1)) /\ Rounded(L[b].n[1], Nu(first + 2)) /\ Rounded(L[b].n[2], Nu(first + 3)))
      /\ Clause(T.id, "distortion printed: " \o who, \A k \in 1..5 : Rounded(L[c].n[2 * k], Nu(dist + k - 1)))
Lg == O.log
ValidLines == LET m == At(Lg, "MEAN (M): #") d == At(Lg, "STD. DEV. (M): #") am == At(Lg, "MEAN (RAD): #") ad == At(Lg, "STD. DEV. (RAD): #")
                  yes == At(Lg, "CAMERA INTRINSIC CALIBRATION IS VALID!") no == At(Lg, "CAMERA INTRINSIC CALIBRATION IS NOT WITHIN TOLERANCE") IN
   /\ Clause(T.id, "the errors are missing", Len(m) = 1 /\ Len(d) = 1 /\ Len(am) = 1 /\ Len(ad) = 1)
   /\ Clause(T.id, "errors printed", Rounded(Lg[m[1]].n[1], Nu(9)) /\ Rounded(Lg[d[1]].n[1], Nu(10)) /\ Rounded(Lg[am[1]].n[1], Nu(11)) /\ Rounded(Lg[ad[1]].n[1], Nu(12)))
   /\ Clause(T.id, "verdict on the camera", IF Within(r) THEN Len(yes) = 1 /\ Len(no) = 0 ELSE Len(yes) = 0 /\ Len(no) = 1)
\* four digits
Digits4(s, v) == RIsNum(s) /\ RNear(Num(s), v, RMul(RParse("1e-3"), RAdd(RAbs(v), RParse("1e-9"))))
NoiseLines == LET at(w) == At(Lg, w) m == at("POSITION MEAN (M)") d == at("POSITION STANDARD DEVIATION (M)") q == at("QUATERNION MEAN (QX, QY, QZ, QW)") e == at("QUATERNION STANDARD DEVIATION")
                  n(i) == IF i + 1 <= Len(Lg) THEN Lg[i + 1].n ELSE <<>> IN
   /\ Clause(T.id, "the noise is missing", Len(m) = 1 /\ Len(d) = 1 /\ Len(q) = 1 /\ Len(e) = 1)
   /\ Clause(T.id, "noise printed", Len(n(m[1])) = 3 /\ Len(n(d[1])) = 3 /\ Len(n(q[1])) = 4 /\ Len(n(e[1])) = 1)
   /\ Clause(T.id, "mean position printed", \A k \in 1..3 : Digits4(n(m[1])[k], Nu(k - 1)))
   /\ Clause(T.id, "deviation of the position printed", \A k \in 1..3 : Digits4(n(d[1])[k], Nu(k + 2)))
   /\ Clause(T.id, "mean quaternion printed", \A k \in 1..4 : Digits4(n(q[1])[k], Nu(IF k = 4 THEN 6 ELSE 6 + k)))
   /\ Clause(T.id, "deviation of the quaternion printed", Digits4(n(e[1])[1], Nu(10)))
Told == /\ ph = "shown"
        /\ TRUE = (/\ Outcomes /\ Transforms /\ Differences /\ HandEyeStats
                   /\ (r.tool = "intr" => Values("OPENCV", L, 13, 17) /\ Values("RCT", L, 0, 4))
                   /\ (r.tool = "valid" => ValidLines) /\ (r.tool = "noise" => NoiseLines))
        /\ Accept(T.id) /\ ph' = "end" /\ UNCHANGED <<l, r>>
Next == Read \/ Lost \/ Refused \/ Solved \/ Showed \/ Told
Spec == Init /\ [][Next]_vars
=============================================================================
