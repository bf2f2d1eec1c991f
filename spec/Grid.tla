-------------------------------- MODULE Grid -------------------------------
(***************************************************************************)
(* A circle grid target in a picture: dots on the plane, the one at the    *)
(* origin larger than the others, which tells how the grid is turned.      *)
(***************************************************************************)
EXTENDS Target, View
\* the large circle: first of the last row, at the origin
Origin(t) == First(t) + (t.rows - 1) * t.cols
\* the eight ways to look at the index grid of a t.rows x t.cols target (quarter turns and mirror images)
Turned(t, n, id) == LET r == RowOf(t, id) c == ColOf(t, id) IN
  CASE n = 0 -> << r, c >> [] n = 1 -> << c, t.rows - 1 - r >> [] n = 2 -> << t.rows - 1 - r, t.cols - 1 - c >> [] n = 3 -> << t.cols - 1 - c, r >>
    [] n = 4 -> << r, t.cols - 1 - c >> [] n = 5 -> << c, r >> [] n = 6 -> << t.rows - 1 - r, c >> [] OTHER -> << t.cols - 1 - c, t.rows - 1 - r >>
\* everything the finder needs is in the picture
Complete(t, dots) == \A id \in Ids(t) : \E i \in 1..Len(dots) : dots[i].id = id
=============================================================================
