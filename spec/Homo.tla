-------------------------------- MODULE Homo --------------------------------
(***************************************************************************)
(* Plane homographies: what an exact picture of a planar target is, and    *)
(* the one homography that four features in general position determine.    *)
(***************************************************************************)
EXTENDS Geom
H3(p) == << p[1], p[2], ROne >>
Hom(h, p) == LET v == Strict(MVec(h, H3(p))) IN << RDiv(v[1], v[3]), RDiv(v[2], v[3]) >>
Depth(h, p) == VDot(h[3], H3(p))
Scale1(h) == LET s == h[3][3] IN Strict(<< VScale(RDiv(ROne, s), h[1]), VScale(RDiv(ROne, s), h[2]), VScale(RDiv(ROne, s), h[3]) >>)
MInv3(m) == LET d == MDet(m) c == MT(<< Cross(m[2], m[3]), Cross(m[3], m[1]), Cross(m[1], m[2]) >>) IN
            Strict(<< VScale(RDiv(ROne, d), c[1]), VScale(RDiv(ROne, d), c[2]), VScale(RDiv(ROne, d), c[3]) >>)
\* the projective frame of four points: its columns are multiples of the first three and sum to the fourth
Frame(p) == LET c == Strict(MT(<< H3(p[1]), H3(p[2]), H3(p[3]) >>)) w == Strict(MVec(MInv3(c), H3(p[4]))) IN
            Strict([r \in 1..3 |-> [k \in 1..3 |-> RMul(c[r][k], w[k])]])
\* from four points a to four points b
Through(a, b) == Strict(MMul(Frame(b), MInv3(Frame(a))))
\* twice the area of a triangle
Area(p, q, r) == RSub(RMul(RSub(q[1], p[1]), RSub(r[2], p[2])), RMul(RSub(q[2], p[2]), RSub(r[1], p[1])))
Min2(a, b) == IF RLt(b, a) THEN b ELSE a
MinArea(p) == Min2(Min2(RAbs(Area(p[1], p[2], p[3])), RAbs(Area(p[1], p[2], p[4]))), Min2(RAbs(Area(p[1], p[3], p[4])), RAbs(Area(p[2], p[3], p[4]))))
D2(p, q) == RAdd(RSq(RSub(p[1], q[1])), RSq(RSub(p[2], q[2])))
\* squared extent of a set of points, as seen from the first
RECURSIVE Extent(_, _)
Extent(p, k) == IF k = 0 THEN RZero ELSE RMax(Extent(p, k - 1), D2(p[1], p[k]))
\* no three of the four nearly on a line
General(p) == LET e == Extent(p, 4) IN RLt(RZero, e) /\ RLe(RMul(RFrac(1, 20), e), MinArea(p))
\* ---- choosing features ----
Corners(rows, cols, stride) == { 0, (cols - 1) * stride, (rows - 1) * cols * stride, (rows * cols - 1) * stride }
GridOk(rows, cols) == rows >= 2 /\ cols >= 2 /\ rows * cols >= 8
=============================================================================
