------------------------------- MODULE Marker ------------------------------
(***************************************************************************)
(* Marker targets in a picture.  The markers of a grid are its features; a *)
(* chessboard's markers lie in its white squares and its features are the  *)
(* inner corners, each of which touches exactly two markers.               *)
(***************************************************************************)
EXTENDS Target, View
\* ---- markers of a chessboard of r x c squares: white squares row by row; the first square is black
IsWhite(r, c) == (r + c) % 2 = 1
Whites(t) == LET RECURSIVE W(_)
                 W(n) == IF n = t.rows * t.cols THEN <<>> ELSE LET r == n \div t.cols c == n % t.cols IN (IF IsWhite(r, c) THEN << <<r, c>> >> ELSE <<>>) \o W(n + 1)
             IN Strict(W(0))
\* all markers of a target: sequence of [id, x, y, s] (origin corner and side)
MarkersOf(t) == IF t.kind = "aruco" THEN [i \in 1..Count(t) |-> LET p == Points(t, First(t) + i - 1)[1] IN [id |-> First(t) + i - 1, x |-> p[1], y |-> p[2], s |-> t.a]]
                ELSE LET w == Whites(t) gap == RDiv(RSub(t.a, t.b), RInt(2)) IN
                     [i \in 1..Len(w) |-> [id |-> i - 1, x |-> RAdd(RMul(RInt(w[i][2]), t.a), gap), y |-> RAdd(RMul(RInt(w[i][1]), t.a), gap), s |-> t.b]]
Corners(m) == << Pt(m.x, m.y), Pt(RAdd(m.x, m.s), m.y), Pt(RAdd(m.x, m.s), RAdd(m.y, m.s)), Pt(m.x, RAdd(m.y, m.s)) >>
\* the two markers that touch inner corner id
Touching(t, id) == LET r == RowOf(t, id) c == ColOf(t, id) w == Whites(t) sq == {<<r, c>>, <<r, c + 1>>, <<r + 1, c>>, <<r + 1, c + 1>>} IN
                   {i - 1 : i \in {j \in 1..Len(w) : w[j] \in sq}}
\* extent of the target
Extent(t) == IF t.kind = "aruco" THEN << RSub(RMul(RInt(t.cols), RAdd(t.a, t.b)), t.b), RSub(RMul(RInt(t.rows), RAdd(t.a, t.b)), t.b) >>
             ELSE << RMul(RInt(t.cols), t.a), RMul(RInt(t.rows), t.a) >>
\* features readable when exactly the markers `seen` are
Readable(t, seen) == IF t.kind = "aruco" THEN Ids(t) \cap seen ELSE {id \in Ids(t) : Touching(t, id) \subseteq seen}
=============================================================================
