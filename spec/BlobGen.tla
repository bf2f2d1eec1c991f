------------------------------ MODULE BlobGen -------------------------------
(* Shapes are painted one after another (those too close to another are left *)
(* out), parameters are chosen, and the thresholds are swept.                *)
EXTENDS Blob, Draws
VARIABLES sid, phase, shapes, next, par, at, seen
vars == <<sid, phase, shapes, next, par, at, seen>>
W == 320
H == 240
Bg(s) == PickD(s, 1, << 255, 230, 128, 0, 20 >>)
\* a level away from v by at least 25
Away(s, k, v) == LET d == D(s, k, 25, 230) IN IF v + d <= 255 THEN v + d ELSE IF v - d >= 0 THEN v - d ELSE (IF v > 127 THEN v - 100 ELSE v + 100)
DrawShape(s, i) ==
  LET k == 20 * i + 100
      kind == PickD(s, k, << "disc", "disc", "disc", "ellipse", "ellipse", "rect", "cross" >>)
      wants == kind # "cross" /\ C(s, k + 4, 25) cone == kind = "disc" /\ ~wants /\ C(s, k + 12, 20)
      b == IF kind = "cross" THEN F(s, k + 1, 12, 24, 2) ELSE IF wants /\ C(s, k + 13, 60) THEN F(s, k + 1, 37, 50, 2) ELSE F(s, k + 1, 10, 50, 2)
      a == CASE kind = "disc" -> b [] kind = "cross" -> RMul(RInt(3), b) [] OTHER -> RMul(b, F(s, k + 2, 10, 30, 10))
      t == F(s, k + 3, -9, 9, 4) n == RAdd(ROne, RSq(t))
      nested == wants /\ RLt(RInt(18), b)
      g == Away(s, k + 5, Bg(s))
  IN Strict([kind |-> kind, x |-> F(s, k + 6, 30, 3 * W - 30, 3), y |-> F(s, k + 7, 30, 3 * H - 30, 3), a |-> a, b |-> b, u |-> RDiv(RSub(ROne, RSq(t)), n), v |-> RDiv(RMul(RInt(2), t), n),
       g |-> g, w |-> IF cone THEN F(s, k + 9, 17, 32, 2) ELSE IF kind = "disc" /\ ~nested /\ C(s, k + 8, 30) THEN F(s, k + 9, 1, 6, 2) ELSE RZero,
       cr |-> IF nested THEN F(s, k + 10, 10, 14, 2) ELSE RZero, cg |-> IF nested THEN Away(s, k + 11, g) ELSE 0])
Incl(s) == F(s, 10, 4, IF C(s, 9, 50) THEN 24 ELSE 44, 2)
Apart(s, p, q) == LET d2 == RAdd(RSq(RSub(p.x, q.x)), RSq(RSub(p.y, q.y))) IN
  RLt(RSq(RAdd(RAdd(ReachOf(p), ReachOf(q)), RInt(6))), d2) /\ RLt(RSq(RAdd(Incl(s), RInt(4))), d2)
Inner(p, m) == LET r == RAdd(ReachOf(p), RInt(m)) IN RLt(r, p.x) /\ RLt(r, p.y) /\ RLt(RAdd(p.x, r), RInt(W)) /\ RLt(RAdd(p.y, r), RInt(H))
\* now and then a shape comes as close to the one before it as it may
Moved(p, i) == IF shapes # <<>> /\ C(sid, 95 + i, 45) THEN
     LET q == shapes[Len(shapes)] d == RAdd(RRound(RMax(RAdd(RAdd(ReachOf(p), ReachOf(q)), RInt(6)), RAdd(Incl(sid), RInt(4))), 10), RFrac(3, 10))
         t == F(sid, 960 + i, -12, 12, 5) n == RAdd(ROne, RSq(t)) sg == IF C(sid, 980 + i, 50) THEN ROne ELSE RNeg(ROne)
     IN [p EXCEPT !.x = RRound(RAdd(q.x, RMul(RMul(sg, d), RDiv(RSub(ROne, RSq(t)), n))), 1000), !.y = RRound(RAdd(q.y, RMul(RMul(sg, d), RDiv(RMul(RInt(2), t), n))), 1000)]
   ELSE p
\* a shape cut by the border of the picture (or a bow of a ring with its middle outside) is
\* painted now and then, and last: what it looks like to a detector is not determined, but it must not disturb the others
Cuts(s) == C(s, 11, 25)
NShapes(s) == D(s, 12, 0, 10)
Init == sid \in 1..N /\ phase = "paint" /\ shapes = <<>> /\ next = 1 /\ par = <<>> /\ at = 0 /\ seen = <<>>
Paint == /\ phase = "paint" /\ next <= NShapes(sid)
         /\ shapes' = LET p == Moved(DrawShape(sid, next), next) IN IF Inner(p, 4) = TRUE /\ (\A j \in 1..Len(shapes) : Apart(sid, p, shapes[j]) = TRUE) THEN Append(shapes, p) ELSE shapes
         /\ next' = next + 1 /\ UNCHANGED <<sid, phase, par, at, seen>>
Cut == IF Cuts(sid) THEN LET t == DrawShape(sid, 20) side == D(sid, 13, 0, 3)
            z == IF C(sid, 15, 60) THEN [t EXCEPT !.kind = "ring", !.a = RMul(t.a, RInt(D(sid, 16, 1, 3))), !.b = F(sid, 17, 3, 6, 2)] ELSE t
            r == ReachOf(z) k == IF z.kind = "ring" THEN RMul(z.a, RNeg(F(sid, 14, 2, 9, 10))) ELSE RMul(r, F(sid, 14, -9, 9, 10))
            q == [z EXCEPT !.x = IF side = 0 THEN k ELSE IF side = 1 THEN RSub(RInt(W - 1), k) ELSE t.x, !.y = IF side = 2 THEN k ELSE IF side = 3 THEN RSub(RInt(H - 1), k) ELSE t.y, !.w = RZero, !.cr = RZero] IN
         IF \A j \in 1..Len(shapes) : Apart(sid, q, shapes[j]) = TRUE THEN <<q>> ELSE <<>>
       ELSE <<>>
Os == Blobs(Bg(sid), shapes)
\* a limit near the measure of one of the blobs, on either side of it, or an arbitrary one; a disabled limit excludes everything
Try(k, ranges, lo, hi) ==
  LET r == IF ranges = <<>> THEN <<lo, hi>> ELSE ranges[1 + (D(sid, k, 0, 1000) % Len(ranges))]
      r2 == IF ranges = <<>> THEN <<lo, hi>> ELSE ranges[1 + (D(sid, k + 1, 0, 1000) % Len(ranges))]
      mn == CASE C(sid, k + 2, 30) -> RMul(r[1], RFrac(98, 100)) [] C(sid, k + 3, 50) -> RMul(r[2], RFrac(102, 100)) [] OTHER -> RZero
      mx == CASE C(sid, k + 4, 30) -> RMul(r2[1], RFrac(98, 100)) [] C(sid, k + 5, 50) -> RMul(r2[2], RFrac(102, 100)) [] OTHER -> RInt(1000000)
  IN  [on |-> TRUE, min |-> RMax(RRound(mn, 1000), RZero), max |-> RMax(RRound(mx, 1000), RZero)]
RECURSIVE Limit(_, _, _, _, _)
\* the first attempt that leaves no doubt about any blob and, as long as there is a choice, separates the blobs
Limit(k, on, ranges, lo, hi) ==
  IF ~on \/ k % 200 >= 190 THEN [on |-> FALSE, min |-> RInt(5), max |-> RFrac(1, 1000)]
  ELSE LET m == Try(k, ranges, lo, hi) n == Cardinality({j \in 1..Len(ranges) : Within(m, ranges[j])}) IN
       IF (\A j \in 1..Len(ranges) : Decided(m, ranges[j]) = TRUE) /\ (((n > 0 /\ n < Len(ranges)) \/ k % 200 >= 130) = TRUE) THEN m ELSE Limit(k + 6, on, ranges, lo, hi)
Ranges(F1(_)) == Strict([j \in 1..Len(Os) |-> F1(Os[j])])
Parameters ==
  LET cones == \E j \in 1..Len(shapes) : RLt(RInt(6), shapes[j].w)
      n == IF cones /\ C(sid, 29, 70) THEN PickD(sid, 30, <<12, 18, 18, 30>>) ELSE PickD(sid, 30, << 1, 2, 3, 5, 9, 18, 18, 30 >>) lo == D(sid, 31, 0, 120) hi == D(sid, 32, 121, 255) IN
  Strict([n |-> n, lo |-> RAdd(RInt(lo), RFrac(1, 7)), hi |-> RAdd(RInt(hi), RFrac(1, 7)), rep |-> IF C(sid, 33, 8) THEN n + D(sid, 34, 1, 3) ELSE IF cones /\ C(sid, 28, 60) THEN D(sid, 35, (n + 3) \div 4, (2 * n + 2) \div 3) ELSE D(sid, 35, 1, IF C(sid, 36, 60) /\ n > 3 THEN 3 ELSE n),
    incl |-> Incl(sid), rad |-> F(sid, 37, 10, 14, 2), err |-> IF C(sid, 38, 4) THEN RZero ELSE RFrac(1, 2),
    color |-> C(sid, 39, 50), want |-> PickD(sid, 40, <<0, 255>>),
    area |-> Limit(1000, C(sid, 41, 75), Ranges(AreaRange), RInt(10), RInt(5000)), circ |-> Limit(1200, C(sid, 42, 40), Ranges(CircRange), RFrac(1, 10), ROne),
    inert |-> Limit(1400, C(sid, 43, 40), Ranges(InertRange), RFrac(1, 10), ROne), conv |-> Limit(1600, C(sid, 44, 40), Ranges(ConvRange), RFrac(1, 10), ROne)])
Choose == /\ phase = "paint" /\ next > NShapes(sid) /\ par' = Parameters /\ phase' = (IF Valid(par') THEN "sweep" ELSE "emit") /\ seen' = [j \in 1..Len(Os) |-> 0] /\ UNCHANGED <<sid, shapes, next, at>>
Sweep == /\ phase = "sweep" /\ at < par.n /\ at' = at + 1
         /\ seen' = LET o == Os th == Level(par, at + 1) IN Strict([j \in 1..Len(o) |-> seen[j] + (IF Kept(par, o[j], th) THEN 1 ELSE 0)])
         /\ UNCHANGED <<sid, phase, shapes, next, par>>
Swept == phase = "sweep" /\ at = par.n /\ phase' = "emit" /\ UNCHANGED <<sid, shapes, next, par, at, seen>>
SJson(p) == [kind |-> p.kind, x |-> RDec(p.x), y |-> RDec(p.y), a |-> RDec(p.a), b |-> RDec(p.b), u |-> RDec(p.u), v |-> RDec(p.v), g |-> p.g, w |-> RDec(p.w), cr |-> RDec(p.cr), cg |-> p.cg]
LJson(m) == [on |-> m.on, min |-> RDec(m.min), max |-> RDec(m.max)]
Case == [id |-> "C18-" \o ToString(sid), op |-> "circles", w |-> W, h |-> H, bg |-> Bg(sid), shapes |-> [j \in 1..Len(shapes) |-> SJson(shapes[j])], cut |-> LET q == Cut IN [j \in 1..Len(q) |-> SJson(q[j])],
   channels |-> PickD(sid, 90, <<1, 3>>), tint |-> IF C(sid, 91, 35) THEN D(sid, 92, 1, 100000) ELSE 0, p |-> [n |-> par.n, lo |-> RDec(par.lo), hi |-> RDec(par.hi), rep |-> par.rep, incl |-> RDec(par.incl), rad |-> RDec(par.rad), err |-> RDec(par.err), color |-> par.color, want |-> par.want,
   area |-> LJson(par.area), circ |-> LJson(par.circ), inert |-> LJson(par.inert), conv |-> LJson(par.conv)]]
Emit == phase = "emit" /\ PrintT("CASE " \o ToJson(Case)) /\ phase' = "done" /\ UNCHANGED <<sid, shapes, next, par, at, seen>>
Next == Paint \/ Choose \/ Sweep \/ Swept \/ Emit
Spec == Init /\ [][Next]_vars
\* ---- what the model promises ----
Ready == phase = "emit"
\* the limits within which cones are one blob leave no contradiction
Cones == (Ready /\ Valid(par)) => \A j \in 1..Len(Os) : (Cone(Os[j]) /\ ConeMust(par, Os[j])) => ConeMay(par, Os[j])
\* the sweep counts what the definition says
Counted == (Ready /\ Valid(par)) => LET o == Os IN \A j \in 1..Len(o) : seen[j] = Times(par, o[j])
\* asking for more sightings never adds a blob
Demanding == (Ready /\ Valid(par)) => Reported([par EXCEPT !.rep = par.rep + 1], Os, seen) \subseteq Reported(par, Os, seen)
\* limits that are switched off have no influence
Off == (Ready /\ Valid(par)) => LET z == [on |-> FALSE, min |-> RZero, max |-> RZero] IN
   \A f \in {"area", "circ", "inert", "conv"} : (~par[f].on) => Reported([par EXCEPT ![f] = z], Os, seen) = Reported(par, Os, seen)
\* the negative of the picture, through mirrored thresholds and with the other colour, shows the same blobs
Negative == (Ready /\ Valid(par)) => LET o == Os
                                         m == [par EXCEPT !.lo = RSub(RInt(255), par.hi), !.hi = RSub(RInt(255), par.lo), !.want = 255 - par.want] IN
   \A j \in 1..Len(o) : Times(m, [o[j] EXCEPT !.in = 255 - o[j].in, !.out = 255 - o[j].out, !.mid = 255 - o[j].mid]) = seen[j]
\* every enabled limit decides every blob
NoDoubt == Ready => LET o == Os IN \A j \in 1..Len(o) : AllDecided(par, o[j])
=============================================================================
