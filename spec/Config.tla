------------------------------- MODULE Config --------------------------------
(***************************************************************************)
(* Parameters.  A value is [t, v]: "d" a real number (its decimal), "i" an *)
(* integer, "b" a truth value, "s" a text, "a" a list of values, "m" a     *)
(* sequence of <<name, value>>.  Reading something as a number, an integer *)
(* or a truth value yields "exact" (it is what was asked for), "loose" (it *)
(* is written otherwise, but says the same), or "bad".                     *)
(***************************************************************************)
EXTENDS Geom, FiniteSets
Has(n, k) == n.t = "m" /\ \E i \in 1..Len(n.v) : n.v[i][1] = k
Get(n, k) == n.v[CHOOSE i \in 1..Len(n.v) : n.v[i][1] = k][2]
Missing == [t |-> "none", v |-> ""]
At(n, k) == IF Has(n, k) THEN Get(n, k) ELSE Missing
\* how well a value serves as ...
AsReal(n) == IF n.t = "d" THEN "exact" ELSE IF n.t = "i" THEN "loose" ELSE IF n.t = "s" /\ RIsNum(n.v) THEN "loose" ELSE "bad"
AsInt(n) == IF n.t = "i" THEN "exact" ELSE IF n.t \in {"d", "s"} /\ RIsNum(n.v) THEN "loose" ELSE "bad"
AsBool(n) == IF n.t = "b" THEN "exact" ELSE IF n.t \in {"s", "i"} THEN "loose" ELSE "bad"
Worst(S) == IF "bad" \in S THEN "bad" ELSE IF "loose" \in S THEN "loose" ELSE "exact"

IntrNames == <<"fx", "fy", "cx", "cy">>
PoseNames == <<"x", "y", "z", "qx", "qy", "qz", "qw">>
Reals(n, names) == Worst({AsReal(At(n, names[i])) : i \in 1..Len(names)})
NumsOf(n, names) == [i \in 1..Len(names) |-> Num(At(n, names[i]).v)]
PoseOf(n) == LET v == NumsOf(n, PoseNames) IN [q |-> <<v[7], v[4], v[5], v[6]>>, t |-> <<v[1], v[2], v[3]>>]

\* ---- which structures have a form in YAML: scalars, structures and lists of scalars of one type ----
RECURSIVE Convertible(_)
Convertible(n) ==
  CASE n.t = "m" -> \A i \in 1..Len(n.v) : Convertible(n.v[i][2])
    [] n.t = "a" -> Len(n.v) > 0 /\ \A i \in 1..Len(n.v) : n.v[i].t \in {"d", "i", "b", "s"} /\ n.v[i].t = n.v[1].t
    [] OTHER -> TRUE
RECURSIVE HasEmpty(_)
HasEmpty(n) == CASE n.t = "m" -> Len(n.v) = 0 \/ \E i \in 1..Len(n.v) : HasEmpty(n.v[i][2]) [] n.t = "a" -> Len(n.v) = 0 [] OTHER -> FALSE
\* y (a tree of texts) says what n says
RECURSIVE Says(_, _)
Says(y, n) ==
  CASE n.t = "m" -> IF Len(n.v) = 0 THEN y.t \in {"n", "m"} ELSE y.t = "m" /\ Len(y.v) = Len(n.v) /\ \A i \in 1..Len(n.v) : \E k \in 1..Len(y.v) : y.v[k][1] = n.v[i][1] /\ Says(y.v[k][2], n.v[i][2])
    [] n.t = "a" -> IF Len(n.v) = 0 THEN y.t \in {"n", "a"} ELSE y.t = "a" /\ Len(y.v) = Len(n.v) /\ \A i \in 1..Len(n.v) : Says(y.v[i], n.v[i])
    [] n.t = "d" -> y.t = "v" /\ RIsNum(y.d) /\ RLe(RAbs(RSub(Num(y.d), Num(n.v))), RMul(RParse("1.2e-16"), RAbs(Num(n.v))))
    [] n.t = "s" -> y.t = "v" /\ y.s = n.v
    [] OTHER -> y.t = "v" /\ y.s = n.v

\* ---- circle detector parameters ----
Floats == {"minThreshold", "maxThreshold", "circleInclusionRadius", "maxRadiusDiff", "maxAverageEllipseError", "minArea", "maxArea", "minCircularity", "maxCircularity", "minInertiaRatio", "maxInertiaRatio", "minConvexity", "maxConvexity"}
Counts == {"nThresholds", "minRepeatability"}
Flags == {"filterByColor", "filterByArea", "filterByCircularity", "filterByInertia", "filterByConvexity"}
Color == {"circleColor"}
Circle == Floats \cup Counts \cup Flags \cup Color
NonNeg(n) == IF RIsNum(n.v) THEN RLe(RZero, Num(n.v)) ELSE FALSE
Serves(n, k) == IF k \in Floats THEN AsReal(n) ELSE IF k \in Flags THEN AsBool(n)
  ELSE IF AsInt(n) = "bad" THEN "bad" ELSE IF ~NonNeg(n) \/ (k \in Color /\ RLt(RInt(255), Num(n.v))) THEN "bad" ELSE AsInt(n)
Complete(n) == Worst({Serves(At(n, k), k) : k \in Circle})
TruthOf(n) == IF n.v = "true" THEN ROne ELSE RZero
\* single precision
IsParam(x, n, k) == IF k \in Flags THEN Num(x) = TruthOf(n) ELSE RLe(RAbs(RSub(Num(x), Num(n.v))), RMul(RParse("6e-8"), RAbs(Num(n.v))))

\* ---- target definitions ----
CircleGood(n) == Worst({AsInt(At(n, "rows")), AsInt(At(n, "cols")), AsReal(At(n, "spacing"))})
CharucoGood(n) == Worst({AsInt(At(n, "rows")), AsInt(At(n, "cols")), AsReal(At(n, "chessboard_dim")), AsReal(At(n, "aruco_marker_dim")), AsInt(At(n, "dictionary"))})
Positive(n) == IF RIsNum(n.v) THEN RLt(RZero, Num(n.v)) ELSE FALSE
=============================================================================
