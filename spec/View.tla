-------------------------------- MODULE View -------------------------------
(***************************************************************************)
(* A plane target seen by a pinhole camera: which of its features are in   *)
(* the picture, and where.                                                 *)
(***************************************************************************)
EXTENDS Geom
\* pixels of a point of the plane; pose: camera to target, k: intrinsics
Px(k, mp, p) == LET u == Project(k, MPApply(mp, p)) IN Strict(<< RRound(u[1], Grid18), RRound(u[2], Grid18) >>)
PxAll(k, mp, ps) == Strict([i \in 1..Len(ps) |-> Px(k, mp, ps[i])])
Ahead(mp, ps) == \A i \in 1..Len(ps) : RLt(RZero, MPApply(mp, ps[i])[3])
Dist2(a, b) == RAdd(RSq(RSub(a[1], b[1])), RSq(RSub(a[2], b[2])))
\* how far inside the picture a pixel is (negative: outside)
Inside(u, w, h) == RMin(RMin(RAdd(u[1], RFrac(1, 2)), RAdd(u[2], RFrac(1, 2))), RMin(RSub(RSub(RInt(w), RFrac(1, 2)), u[1]), RSub(RSub(RInt(h), RFrac(1, 2)), u[2])))
RECURSIVE MinOf(_)
MinOf(s) == IF Len(s) = 1 THEN s[1] ELSE LET r == MinOf(Tail(s)) IN RMin(s[1], r)
InPicture(us, w, h, margin) == RLe(RInt(margin), MinOf([i \in 1..Len(us) |-> Inside(us[i], w, h)]))
OutOfPicture(us, w, h, margin) == RLe(MinOf([i \in 1..Len(us) |-> Inside(us[i], w, h)]), RInt(-margin))
\* shortest side of a projected quadrilateral, squared
Side2(us) == MinOf([i \in 1..Len(us) |-> Dist2(us[i], us[1 + (i % Len(us))])])
NearPx(j, u, tol) == RIsNum(j[1]) /\ RIsNum(j[2]) /\ RLe(Dist2(<<RParse(j[1]), RParse(j[2])>>, u), RSq(tol))
=============================================================================
