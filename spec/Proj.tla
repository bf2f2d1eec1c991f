-------------------------------- MODULE Proj --------------------------------
(***************************************************************************)
(* The pinhole camera and its inverse on a posed plane (the x-y plane of a *)
(* frame whose pose in the camera is X).                                   *)
(***************************************************************************)
EXTENDS Geom
\* the ray through pixel u
Ray(k, u) == << RDiv(RSub(u[1], k[3]), k[1]), RDiv(RSub(u[2], k[4]), k[2]), ROne >>
ColZ(m) == << m[1][3], m[2][3], m[3][3] >>
\* the line a + s*l and the plane through p with normal n
Facing(n, l) == VDot(n, l)
Meet(n, p, l, a) == LET s == RDiv(VDot(VSub(p, a), n), Facing(n, l)) IN VAdd(a, VScale(s, l))
\* pixel u seen on the plane of X, in the plane's frame
BackProject(k, X, u) == MPApply(MPInv(X), Meet(ColZ(X.m), X.t, Ray(k, u), VZero))
\* sine of the angle between ray and plane, squared
Grazing(k, X, u) == LET r == Ray(k, u) IN RDiv(RSq(Facing(ColZ(X.m), r)), VSq(r))
=============================================================================
