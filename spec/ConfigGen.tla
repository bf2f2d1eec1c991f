------------------------------ MODULE ConfigGen ------------------------------
(***************************************************************************)
(* Parameters are set one after the other, some of them incomplete or of   *)
(* another type, and then read: as intrinsics, a pose, a target, or as a   *)
(* document.                                                               *)
(***************************************************************************)
EXTENDS Config, Draws
VARIABLES sid, phase, server, calls
vars == <<sid, phase, server, calls>>
Dbl(x) == [t |-> "d", v |-> RDec(x)]
Ival(n) == [t |-> "i", v |-> ToString(n)]
Str(s) == [t |-> "s", v |-> s]
Bool(b) == [t |-> "b", v |-> IF b THEN "true" ELSE "false"]
Arr(s) == [t |-> "a", v |-> s]
Map(s) == [t |-> "m", v |-> s]
Real(k) == PickD(sid, k, << F(sid, k + 1, -99999, 99999, 1000), F(sid, k + 1, -99999, 99999, 777), RMul(F(sid, k + 1, -999, 999, 7), RParse(PickD(sid, k + 2, << "1e-9", "1e6", "1e-5", "1" >>))), F(sid, k + 1, -99, 99, 8) >>)
\* something else than x
Other(x, k) == PickD(sid, k, << Ival(D(sid, k + 1, -9, 9)), Str("text"), Str(""), Bool(TRUE), Arr(<<x>>), Map(<< <<"v", x>> >>), Str("1.5"), Ival(3) >>)
\* one entry may be missing, of another type, or an extra one there; order is free
Fate(k) == PickD(sid, k, << "good", "good", "good", "good", "missing", "other", "extra" >>)
Spoilt(es, k) ==
  LET f == Fate(k) n == D(sid, k + 1, 1, Len(es)) IN
  CASE f = "missing" -> [i \in 1..(Len(es) - 1) |-> es[IF i < n THEN i ELSE i + 1]]
    [] f = "other" -> [es EXCEPT ![n] = << es[n][1], Other(es[n][2], k + 2) >>]
    [] f = "extra" -> Append(es, <<"comment", Str("extra")>>)
    [] OTHER -> es
Shuffled(es, k) == LET p == Perm(St(sid), k, Len(es)) IN Strict([i \in 1..Len(es) |-> es[p[i]]])
Whole(n, k) == IF C(sid, k, 5) THEN Other(Dbl(ROne), k + 1) ELSE n
IntrNode(k) == Whole(Map(Shuffled(Spoilt([i \in 1..4 |-> <<IntrNames[i], Dbl(RAbs(RAdd(Real(k + (3 * i)), ROne)))>>], k + 20), k + 30)), k + 40)
PoseNode(k) == Whole(Map(Shuffled(Spoilt([i \in 1..7 |-> <<PoseNames[i], Dbl(IF i <= 3 THEN Real(k + (3 * i)) ELSE F(sid, k + (3 * i), 1, 2000, 999))>>], k + 30), k + 40)), k + 50)
\* detector parameters in the order of their declaration
PNames == <<"minThreshold", "maxThreshold", "nThresholds", "minRepeatability", "circleInclusionRadius", "maxRadiusDiff", "maxAverageEllipseError", "filterByColor", "circleColor", "filterByArea", "minArea", "maxArea",
            "filterByCircularity", "minCircularity", "maxCircularity", "filterByInertia", "minInertiaRatio", "maxInertiaRatio", "filterByConvexity", "minConvexity", "maxConvexity">>
PValue(name, k) == CASE name \in Floats -> Dbl(RAbs(Real(k))) [] name \in Flags -> Bool(C(sid, k, 50)) [] name \in Counts -> Ival(IF C(sid, k, 4) THEN -3 ELSE D(sid, k + 1, 1, 300)) [] OTHER -> Ival(PickD(sid, k, <<0, 255, 255, 0, 128, 1, 0, 255, 300, -1>>))
Detector(k) == Whole(Map(Shuffled(Spoilt([i \in 1..Len(PNames) |-> <<PNames[i], PValue(PNames[i], k + (4 * i))>>], k + 100), k + 110)), k + 140)
Dim(k) == F(sid, k, 1, 4000, PickD(sid, k + 1, <<1000, 777, 4096, 100>>))
CircleNode(k) == LET e == << <<"rows", Ival(IF C(sid, k, 6) THEN D(sid, k + 1, -3, 0) ELSE D(sid, k + 1, 1, 20))>>, <<"cols", Ival(D(sid, k + 2, 1, 20))>>, <<"spacing", Dbl(Dim(k + 3))>> >>
   IN << <<"type", Str("rct_ros_tools::ModifiedCircleGridTargetFinderPlugin")>> >> \o Spoilt(e, k + 10) \o (IF C(sid, k + 20, 70) THEN << <<"circle_detector_params", Detector(k + 100)>> >> ELSE <<>>)
CharucoNode(k) == LET a == Dim(k + 3) e == << <<"rows", Ival(D(sid, k + 1, 2, 9))>>, <<"cols", Ival(D(sid, k + 2, 2, 9))>>, <<"chessboard_dim", Dbl(a)>>, <<"aruco_marker_dim", Dbl(RMul(a, F(sid, k + 5, 10, 95, 100)))>>, <<"dictionary", Ival(D(sid, k + 6, 0, 15))>> >>
   IN << <<"type", Str("rct_ros_tools::CharucoGridTargetFinderPlugin")>> >> \o Spoilt(e, k + 10)
TargetNode(k) == LET n == IF C(sid, k, 60) THEN CircleNode(k + 5) ELSE CharucoNode(k + 5) IN
   CASE C(sid, k + 1, 3) -> Map(Tail(n)) [] C(sid, k + 2, 3) -> Map(<< <<"type", Str("rct_ros_tools::NoSuchPlugin")>> >> \o Tail(n)) [] C(sid, k + 3, 3) -> Map(<< <<"type", Ival(3)>> >> \o Tail(n)) [] OTHER -> Map(Shuffled(n, k + 4))
\* any document
Scalar(k) == PickD(sid, k, << Dbl(Real(k + 1)), Ival(D(sid, k + 4, -99999, 99999)), Bool(C(sid, k + 5, 50)), Str(PickD(sid, k + 6, <<"text", "a: b", "", "true", "1.5", "- x", "#", "'quoted'", "two words">>)) >>)
ListOf(k) == LET n == D(sid, k, 0, 4) st == D(sid, k + 1, 0, 9) IN
   IF st = 0 THEN Arr([i \in 1..n |-> Scalar(k + (10 * i))]) ELSE IF st = 1 THEN Arr([i \in 1..n |-> Map(<< <<"x", Ival(i)>> >>)]) ELSE
   Arr([i \in 1..n |-> CASE st \in 2..4 -> Dbl(Real(k + (10 * i))) [] st \in 5..6 -> Ival(D(sid, k + (10 * i), -99, 99)) [] st = 7 -> Bool(C(sid, k + (10 * i), 50)) [] OTHER -> Str("item " \o ToString(i))])
Leaf(k) == IF C(sid, k, 60) THEN Scalar(k + 1) ELSE ListOf(k + 10)
Flat(k) == Map([i \in 1..D(sid, k, 0, 4) |-> << "k" \o ToString(i), Leaf(k + (60 * i)) >>])
DocNode(k) == IF C(sid, k, 6) THEN Leaf(k + 1) ELSE Map([i \in 1..D(sid, k + 2, 1, 4) |-> << "n" \o ToString(i), IF C(sid, k + 3 + i, 40) THEN Flat(k + (300 * i)) ELSE Leaf(k + (300 * i)) >>])
Init == sid \in 1..N /\ phase = "set" /\ server = <<>> /\ calls = <<>>
Kinds == <<"intr", "pose", "target", "yaml", "target">>
Kind(n) == PickD(sid, 5 + n, Kinds)
NodeOf(kind, k) == CASE kind = "intr" -> IntrNode(k) [] kind = "pose" -> PoseNode(k) [] kind = "target" -> TargetNode(k) [] OTHER -> DocNode(k)
Much == D(sid, 1, 1, 3)
Set == /\ phase = "set" /\ Len(server) < Much
       /\ server' = Append(server, << "p" \o ToString(Len(server) + 1), Strict(NodeOf(Kind(Len(server) + 1), 1000 + (3000 * Len(server)))) >>)
       /\ UNCHANGED <<sid, phase, calls>>
Full == phase = "set" /\ Len(server) = Much /\ phase' = "call" /\ UNCHANGED <<sid, server, calls>>
\* files
Plain(n) == IF n.t = "s" THEN "\"" \o n.v \o "\"" ELSE n.v
RECURSIVE Lines(_, _)
Lines(es, i) == IF i > Len(es) THEN "" ELSE es[i][1] \o ": " \o (IF es[i][2].t \in {"a"} THEN "[1]" ELSE IF es[i][2].t = "m" THEN "{v: 1}" ELSE Plain(es[i][2])) \o "\n" \o Lines(es, i + 1)
FileText(n, k) == IF C(sid, k, 8) THEN PickD(sid, k + 1, <<"", "[1, 2, 3]", "hello", "{fx: 1, ", "fx: {">>) ELSE IF n.t = "m" THEN Lines(n.v, 1) ELSE "3"
Call == /\ phase = "call" /\ Len(calls) < Much + 1
        /\ calls' = (LET n == Len(calls) + 1 IN Append(calls,
             IF n <= Much THEN [call |-> Kind(n), key |-> IF C(sid, 30 + n, 4) THEN "elsewhere" ELSE "p" \o ToString(n)]
             ELSE LET w == PickD(sid, 40, <<"intr", "pose">>) m == Strict(NodeOf(w, 20000)) t == Strict(FileText(m, 50))
                  IN [call |-> "f" \o w, node |-> IF C(sid, 50, 8) THEN Str("junk") ELSE IF m.t = "m" THEN m ELSE Str("junk"), text |-> t, missing |-> C(sid, 60, 5)]))
        /\ UNCHANGED <<sid, phase, server>>
Case == [id |-> "C20c-" \o ToString(sid), op |-> "config", params |-> Map(server), calls |-> calls]
Emit == phase = "call" /\ Len(calls) = Much + 1 /\ PrintT("CASE " \o ToJson(Case)) /\ phase' = "done" /\ UNCHANGED <<sid, server, calls>>
Next == Set \/ Full \/ Call \/ Emit
Spec == Init /\ [][Next]_vars
\* ---- what the model promises ----
\* taking an entry away never makes a reading better
Rank(x) == CASE x = "bad" -> 0 [] x = "loose" -> 1 [] OTHER -> 2
Without(n, k) == Map(SelectSeq(n.v, LAMBDA e : e[1] # k))
Needed == \A i \in 1..Len(server) : LET n == server[i][2] IN n.t = "m" =>
   /\ \A k \in 1..4 : Reals(Without(n, IntrNames[k]), IntrNames) = "bad"
   /\ \A k \in 1..7 : Reals(Without(n, PoseNames[k]), PoseNames) = "bad"
   /\ \A k \in Circle : Complete(Without(n, k)) = "bad"
\* what was set is there under its name and nowhere else
There == \A i \in 1..Len(server) : At(Map(server), "p" \o ToString(i)) = server[i][2]
=============================================================================
