------------------------------- MODULE Target ------------------------------
(***************************************************************************)
(* Calibration targets.  A target is [kind, rows, cols, a, b, dict, first]: *)
(*   "aruco"   rows x cols markers of side a with gaps b; marker n of the  *)
(*             grid (row by row) has identifier first + n and four corners,*)
(*             clockwise from its origin corner                            *)
(*   "charuco" rows x cols chessboard squares of side a with markers of    *)
(*             side b; the inner corners are numbered row by row           *)
(*   "circle"  rows x cols circles at distance a, numbered row by row from *)
(*             the row farthest from the origin                            *)
(* A point set maps identifiers to the elements found under them.          *)
(***************************************************************************)
EXTENDS Geom
Pt(x, y) == << x, y, RZero >>
Grid(t) == IF t.kind = "charuco" THEN << t.rows - 1, t.cols - 1 >> ELSE << t.rows, t.cols >>
Count(t) == Grid(t)[1] * Grid(t)[2]
First(t) == IF t.kind = "aruco" THEN t.first ELSE 0
Ids(t) == First(t)..(First(t) + Count(t) - 1)
RowOf(t, id) == (id - First(t)) \div Grid(t)[2]
ColOf(t, id) == (id - First(t)) % Grid(t)[2]
Points(t, id) ==
  LET r == RowOf(t, id) c == ColOf(t, id) IN
  CASE t.kind = "aruco" -> LET x == RMul(RInt(c), RAdd(t.a, t.b)) y == RMul(RInt(r), RAdd(t.a, t.b)) IN
         << Pt(x, y), Pt(RAdd(x, t.a), y), Pt(RAdd(x, t.a), RAdd(y, t.a)), Pt(x, RAdd(y, t.a)) >>
    [] t.kind = "charuco" -> << Pt(RMul(RInt(c + 1), t.a), RMul(RInt(r + 1), t.a)) >>
    [] OTHER -> << Pt(RMul(RInt(c), t.a), RMul(RInt((t.rows - 1) - r), t.a)) >>
\* found: a set of [id, at |-> elements]; which of them make a correspondence set
Fits(t, found) == /\ \A f \in found : f.id \in Ids(t) /\ Len(f.at) >= 1 /\ Len(f.at) <= Len(Points(t, f.id))
                  /\ t.kind = "circle" => {f.id : f \in found} = Ids(t)
\* identifiers in ascending order
RECURSIVE Sorted(_)
Sorted(s) == IF s = {} THEN <<>> ELSE LET m == CHOOSE x \in s : \A y \in s : x <= y IN << m >> \o Sorted(s \ {m})
RECURSIVE PairsOf(_, _, _)
\* (image, target) pairs, identifier by identifier, element by element
PairsOf(t, found, ids) == IF ids = <<>> THEN <<>> ELSE
   LET f == CHOOSE x \in found : x.id = ids[1] p == Points(t, f.id) IN [k \in 1..Len(f.at) |-> << f.at[k], p[k] >>] \o PairsOf(t, found, Tail(ids))
Pairs(t, found) == PairsOf(t, found, Sorted({f.id : f \in found}))
\* two targets are the same when nothing about them differs
Same(t, u) == t = u
=============================================================================
