------------------------------- MODULE Circle -------------------------------
(* Fitting a circle: the error of a point is r^2 - |p - c|^2. *)
EXTENDS Geom
CircleErr(c, p) == RSub(RSq(c.r), RAdd(RSq(RSub(p[1], c.x)), RSq(RSub(p[2], c.y))))
CircleCost(c, pts) == RDiv(RSum([k \in 1..Len(pts) |-> RRound(RSq(CircleErr(c, pts[k])), Grid24)]), RInt(2 * Len(pts)))
=============================================================================
