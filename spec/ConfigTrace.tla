----------------------------- MODULE ConfigTrace -----------------------------
(* One action per call that read a parameter or a file. *)
EXTENDS Config, TraceIO
VARIABLES l, n
vars == <<l, n>>
T == Trace[l]
Calls == T.in.calls
Init == l \in 1..Len(Trace) /\ n = 0
Lost == n = 0 /\ T.out.status # "ok" /\ Clause(T.id, "no answer: " \o T.out.status, FALSE) /\ UNCHANGED vars
S == Calls[n + 1]
O == T.out.calls[n + 1]
Where == " in call " \o ToString(n + 1)
Node == At(T.in.params, S.key)
More == T.out.status = "ok" /\ n < Len(Calls)
\* a value that is as it should be must be read, one that is not there or wrong must be refused
Verdict(how, o) == /\ Clause(T.id, "refused a parameter that is as it should be" \o Where, how = "exact" => o.ok)
                   /\ Clause(T.id, "accepted a parameter that is missing or mistyped" \o Where, how = "bad" => ~o.ok)
IntrIs(o, m) == FiniteSeq(o.x) /\ \A k \in 1..4 : RLe(RAbs(RSub(Num(o.x[k]), NumsOf(m, IntrNames)[k])), RMul(RParse("1.2e-16"), RAbs(NumsOf(m, IntrNames)[k])))
PoseIs(o, m) == FiniteSeq(o.x) /\ MPNear(ReadMPose(o.x), Strict(PM(PoseOf(m))), RParse("1e-14"), RMul(RParse("2e-16"), RAdd(RParse("1e-9"), RSqrt(VSq(PoseOf(m).t)))))
Both(how, m, Is(_, _)) ==
  /\ Verdict(how, O.a) /\ Verdict(how, O.b)
  /\ Clause(T.id, "the two ways of reading a parameter differ" \o Where, O.a.ok = O.b.ok)
  /\ O.a.ok => Clause(T.id, "a parameter was not read as it is written" \o Where, Is(O.a, m))
  /\ O.b.ok => Clause(T.id, "a parameter was not read as it is written" \o Where, Is(O.b, m))
  /\ ~O.b.ok => Clause(T.id, "reading failed in another way than documented: " \o O.b.what \o Where, O.b.what = "returned false")
Documented(type) == ~O.a.ok => Clause(T.id, "reading failed with " \o O.a.type \o Where, O.a.type = type)
Intr == /\ More /\ S.call = "intr" /\ TRUE = (Both(Reals(Node, IntrNames), Node, IntrIs) /\ Documented("ros::InvalidParameterException")) /\ n' = n + 1 /\ UNCHANGED l
Pos == /\ More /\ S.call = "pose" /\ TRUE = (Both(Reals(Node, PoseNames), Node, PoseIs) /\ Documented("ros::InvalidParameterException")) /\ n' = n + 1 /\ UNCHANGED l
\* texts do not tell types apart, and other entries next to those of the intrinsics may be refused
FileHow(m, names) == IF S.missing THEN "bad" ELSE LET r == Reals(m, names) IN IF r = "bad" THEN r ELSE IF \E i \in 1..Len(m.v) : m.v[i][1] = "comment" THEN "loose" ELSE r
FIntr == /\ More /\ S.call = "fintr" /\ TRUE = (Both(FileHow(S.node, IntrNames), S.node, IntrIs) /\ Documented("rct_ros_tools::BadFileException")) /\ n' = n + 1 /\ UNCHANGED l
FPose == /\ More /\ S.call = "fpose" /\ TRUE = (Both(FileHow(S.node, PoseNames), S.node, PoseIs) /\ Documented("rct_ros_tools::BadFileException")) /\ n' = n + 1 /\ UNCHANGED l
Doc == /\ More /\ S.call = "yaml"
       /\ TRUE = (LET m == Node good == m.t = "m" /\ Convertible(m) IN
            /\ Clause(T.id, "refused a structure that has a form in YAML" \o Where, good /\ ~HasEmpty(m) => O.a.ok)
            /\ O.a.ok => /\ Clause(T.id, "converted something that has no form in YAML" \o Where, good \/ (m.t = "m" /\ HasEmpty(m)))
                         /\ Clause(T.id, "the YAML document says something else than the parameter" \o Where, Says(O.a.x, m)))
       /\ n' = n + 1 /\ UNCHANGED l
IntText(x, m) == RIsNum(x) /\ Num(x) = Num(m.v)
IsSingle(x, m) == RIsNum(x) /\ RLe(RAbs(RSub(Num(x), Num(m.v))), RMul(RParse("6e-8"), RAbs(Num(m.v))))
CircleIs(x, m) ==
  /\ Clause(T.id, "another kind of target" \o Where, x.kind = "circle")
  /\ Clause(T.id, "dimensions of the target" \o Where, IntText(x.rows, At(m, "rows")) /\ IntText(x.cols, At(m, "cols")) /\ Num(x.a) = Num(x.a) /\ RLe(RAbs(RSub(Num(x.a), Num(At(m, "spacing").v))), RMul(RParse("1.2e-16"), RAbs(Num(At(m, "spacing").v)))))
  /\ LET d == At(m, "circle_detector_params") how == IF d.t = "m" THEN Complete(d) ELSE "bad" IN
     /\ how = "exact" => Clause(T.id, "detector parameters that are as they should be were reported" \o Where, O.warned = 0)
     /\ how = "bad" /\ d # Missing => Clause(T.id, "missing or mistyped detector parameters were not reported" \o Where, O.warned > 0)
     /\ \A k \in Circle : Clause(T.id, "detector parameter " \o k \o Where,
           \/ (IF how # "bad" THEN IsParam(x.params[k], At(d, k), k) ELSE FALSE)
           \/ how # "exact" /\ x.params[k] = T.out.defaults[k]
           \/ how = "bad" /\ (IF Serves(At(d, k), k) # "bad" THEN IsParam(x.params[k], At(d, k), k) ELSE FALSE))
\* a board that can exist (one that cannot may be refused)
Board(m) == /\ \A k \in {"rows", "cols"} : RLt(ROne, Num(At(m, k).v))
            /\ RLe(RZero, Num(At(m, "dictionary").v)) /\ RLt(Num(At(m, "dictionary").v), RInt(16))
            /\ Positive(At(m, "aruco_marker_dim")) /\ RLt(Num(At(m, "aruco_marker_dim").v), Num(At(m, "chessboard_dim").v))
CharucoIs(x, m) ==
  /\ Clause(T.id, "another kind of target" \o Where, x.kind = "charuco")
  /\ Clause(T.id, "dimensions of the target" \o Where, IntText(x.rows, At(m, "rows")) /\ IntText(x.cols, At(m, "cols")) /\ IsSingle(x.a, At(m, "chessboard_dim")) /\ IsSingle(x.b, At(m, "aruco_marker_dim")))
  \* (OpenCV stands in for a dictionary that does not exist)
  /\ Board(m) => Clause(T.id, "dictionary of the target" \o Where, IntText(ToString(x.dict), At(m, "dictionary")))
\* an entry that is of another type and unreadable as a document makes the whole structure unreadable
Target == /\ More /\ S.call = "target"
          /\ TRUE = (LET m == Node
                         type == IF At(m, "type").t = "s" THEN At(m, "type").v ELSE ""
                         circle == type = "rct_ros_tools::ModifiedCircleGridTargetFinderPlugin"
                         charuco == type = "rct_ros_tools::CharucoGridTargetFinderPlugin"
                         base == IF circle THEN (IF CircleGood(m) = "bad" THEN "bad" ELSE IF ~Positive(At(m, "rows")) \/ ~Positive(At(m, "cols")) THEN "bad" ELSE CircleGood(m))
                                 ELSE IF charuco THEN (IF CharucoGood(m) = "exact" /\ ~Board(m) THEN "loose" ELSE CharucoGood(m)) ELSE "bad"
                         how == IF base = "exact" /\ HasEmpty(m) THEN "loose" ELSE base IN
               /\ Verdict(how, O.a)
               /\ O.a.ok /\ circle => CircleIs(O.a.x, m)
               /\ O.a.ok /\ charuco => CharucoIs(O.a.x, m))
          /\ n' = n + 1 /\ UNCHANGED l
End == T.out.status = "ok" /\ n = Len(Calls) /\ Accept(T.id) /\ n' = n + 1 /\ UNCHANGED l
Next == Lost \/ Intr \/ Pos \/ FIntr \/ FPose \/ Doc \/ Target \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
