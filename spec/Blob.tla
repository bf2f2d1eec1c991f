-------------------------------- MODULE Blob -------------------------------
(***************************************************************************)
(* Blobs in a picture and which of them a circle detector has to report.   *)
(*                                                                         *)
(* The picture is a ground of one grey level with shapes of other levels   *)
(* on it; a shape may carry a smaller disc of yet another level at its     *)
(* centre.  The detector looks at the picture through a row of thresholds. *)
(* At a threshold a blob is seen when its inside and its outside fall on   *)
(* different sides; it is kept when the middle has the wanted colour and   *)
(* its outline is within every enabled limit; it is reported when it was   *)
(* kept often enough.                                                      *)
(*                                                                         *)
(* Limits are measured by the detector on outlines made of pixels.  The    *)
(* model only says between which bounds such a measure must lie, and the   *)
(* generator keeps every limit out of these bounds.                        *)
(***************************************************************************)
EXTENDS Rat, FiniteSets
Pi == RFrac(355, 113)
Half == RFrac(1, 2)
\* ---- shapes: [kind, x, y, a, b, u, v, g, w, cr, cg]; a >= b half lengths, (u, v) the direction of the long axis,
\*      g its level, w the width of a soft edge, cr and cg radius and level of the disc in its middle (0: none)
AreaOf(k, a, b) == CASE k \in {"disc", "ellipse"} -> RMul(Pi, RMul(a, b)) [] k = "rect" -> RMul(RInt(4), RMul(a, b)) [] OTHER -> RMul(RInt(20), RSq(b))
RoundOf(k, a, b) == CASE k \in {"disc", "ellipse"} -> RMul(RMul(Pi, RAdd(a, b)), RAdd(ROne, RDiv(RSq(RDiv(RSub(a, b), RAdd(a, b))), RInt(4))))
                      [] k = "rect" -> RMul(RInt(4), RAdd(a, b)) [] OTHER -> RMul(RInt(24), b)
ReachOf(s) == CASE s.kind \in {"disc", "ellipse", "ring"} -> RAdd(s.a, s.w) [] s.kind = "rect" -> RAdd(s.a, s.b) [] OTHER -> RMul(RFrac(16, 5), s.b)
\* ---- the blobs of a shape on a ground
Body(bg, s) == [kind |-> s.kind, x |-> s.x, y |-> s.y, a |-> s.a, b |-> s.b, w |-> s.w, out |-> bg, in |-> s.g, mid |-> IF REq(s.cr, RZero) THEN s.g ELSE s.cg]
Core(s) == [kind |-> "disc", x |-> s.x, y |-> s.y, a |-> s.cr, b |-> s.cr, w |-> RZero, out |-> s.g, in |-> s.cg, mid |-> s.cg]
RECURSIVE Blobs(_, _)
Blobs(bg, ss) == IF ss = <<>> THEN <<>> ELSE << Body(bg, ss[1]) >> \o (IF REq(ss[1].cr, RZero) THEN <<>> ELSE << Core(ss[1]) >>) \o Blobs(bg, Tail(ss))
\* ---- bounds of what is measured on an outline
Slack(p) == RAdd(RMul(RFrac(6, 5), p), RInt(2))
AreaRange(o) == LET p == RoundOf(o.kind, RAdd(o.a, o.w), RAdd(o.b, o.w)) IN
                << RSub(AreaOf(o.kind, o.a, o.b), Slack(p)), RAdd(AreaOf(o.kind, RAdd(o.a, o.w), RAdd(o.b, o.w)), Slack(p)) >>
CircRange(o) == LET p == RoundOf(o.kind, o.a, o.b) q == RDiv(RMul(RMul(RInt(4), Pi), AreaOf(o.kind, o.a, o.b)), RSq(p)) e == RDiv(RFrac(3, 2), o.b) IN
                << RMul(q, RSub(RFrac(78, 100), e)), RMul(q, RAdd(RFrac(105, 100), e)) >>
InertRange(o) == LET d == RFrac(6, 5) lo == RSq(RDiv(RSub(o.b, d), RAdd(o.a, d))) hi == RSq(RDiv(RAdd(o.b, d), RSub(o.a, d))) IN
                 IF o.kind \in {"disc", "cross"} \/ REq(o.a, o.b) THEN << lo, RFrac(1001, 1000) >> ELSE << lo, RMin(hi, RFrac(1001, 1000)) >>
ConvRange(o) == LET e == RDiv(RFrac(6, 5), o.b) IN IF o.kind = "cross" THEN << RSub(RFrac(62, 100), e), RAdd(RFrac(80, 100), e) >> ELSE << RSub(ROne, e), RFrac(1001, 1000) >>
\* ---- thresholds
Level(p, i) == IF p.n < 2 THEN RDiv(RAdd(p.lo, p.hi), RInt(2)) ELSE RAdd(p.lo, RMul(RFrac(i - 1, p.n - 1), RSub(p.hi, p.lo)))
Bright(v, th) == RLt(th, RInt(v))
Sees(o, th) == Bright(o.in, th) # Bright(o.out, th)
Kept(p, o, th) == Sees(o, th) /\ (p.color => Bright(o.mid, th) = (p.want = 255))
\* ---- limits: [on, min, max]
Within(m, r) == RLe(m.min, r[1]) /\ RLt(r[2], m.max)
Beyond(m, r) == RLt(r[2], m.min) \/ RLe(m.max, r[1])
Decided(m, r) == m.on => Within(m, r) \/ Beyond(m, r)
Passes(m, r) == m.on => Within(m, r)
AllDecided(p, o) == Decided(p.area, AreaRange(o)) /\ Decided(p.circ, CircRange(o)) /\ Decided(p.inert, InertRange(o)) /\ Decided(p.conv, ConvRange(o))
Fits(p, o) == Passes(p.area, AreaRange(o)) /\ Passes(p.circ, CircRange(o)) /\ Passes(p.inert, InertRange(o)) /\ Passes(p.conv, ConvRange(o)) /\ RLt(RZero, p.err)
Valid(p) == p.rep <= p.n
\* a cone is a disc with so wide an edge that its size depends on the threshold; its sightings need not be of one size
Cone(o) == RLt(RInt(6), o.w)
\* the radii at which it is seen, in the order of the thresholds (no edge is sharper than the level itself)
Share(o, th) == RDiv(RSub(th, RInt(o.out)), RInt(o.in - o.out))
RadiusAt(o, th) == RAdd(o.a, RMul(o.w, RSub(ROne, Share(o, th))))
Radii(p, o) == LET k == SelectSeq([i \in 1..p.n |-> i], LAMBDA i : Kept(p, o, Level(p, i))) IN Strict([i \in 1..Len(k) |-> RadiusAt(o, Level(p, k[i]))])
\* sightings are one blob as long as they differ from the first of them by no more than p.rad (here with a doubt of e)
Joins(r, rad, i) == Cardinality({j \in i..Len(r) : RLe(RAbs(RSub(r[j], r[i])), rad) = TRUE})
Most(p, r) == LET n == [i \in 1..Len(r) |-> Joins(r, RAdd(p.rad, ROne), i)] IN IF r = <<>> THEN 0 ELSE CHOOSE m \in {n[i] : i \in 1..Len(r)} : \A i \in 1..Len(r) : n[i] <= m
Sure(p, r) == IF r = <<>> THEN 0 ELSE Joins(r, RSub(p.rad, ROne), 1)
\* a cone may be reported, has to be reported
ConeMay(p, o) == Fits(p, o) /\ Most(p, Radii(p, o)) >= p.rep
ConeMust(p, o) == Fits(p, o) /\ Sure(p, Radii(p, o)) >= p.rep /\ p.rep > 0
\* the blobs to report, given how often each was kept
Reported(p, os, seen) == {j \in 1..Len(os) : ~Cone(os[j]) /\ seen[j] >= p.rep /\ seen[j] > 0 /\ Fits(p, os[j])}
Times(p, o) == Cardinality({i \in 1..p.n : Kept(p, o, Level(p, i))})
=============================================================================
