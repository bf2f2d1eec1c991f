------------------------------- MODULE DocGen -------------------------------
(***************************************************************************)
(* A value is written down field by field as its document; in MODE C10 the *)
(* document is then damaged at one or two places - a field deleted, added, *)
(* renamed or given a value of another type, an element of a list          *)
(* replaced, a whole node replaced - and read.  In MODE C09 it is read     *)
(* with its fields in any order, and the value is cycled through nodes,    *)
(* text and files.                                                         *)
(***************************************************************************)
EXTENDS Doc, Draws
CONSTANT MODE
VARIABLES sid, phase, doc, faults
vars == <<sid, phase, doc, faults>>
Types == <<"vec2", "vec3", "pose", "intr", "corr2", "corr3", "obs2", "obs3", "prob2", "prob3", "result", "dh", "chain", "list pose">>
Type == Types[1 + (sid % 14)]
\* a scenario's own stream of draws, numbered along the document
Odd == << "1e-300", "5e-324", "-1.7976931348623157e308", "-0", "1e22", "0.1", "123456789.123456789", "-3.3333333333333333e-5", "2.2250738585072014e-308", "1000000", "-7" >>
AnyNum(k) == Scalar("num", CASE D(sid, k, 0, 9) < 6 -> RDec(F(sid, k + 1, -4000, 4000, PickD(sid, k + 2, <<1, 7, 100, 3>>)))
                             [] D(sid, k, 0, 9) = 6 /\ D(sid, k + 3, 0, 3) = 0 /\ Type \in {"vec2", "vec3", "intr", "result"} -> PickD(sid, k + 1, <<"inf", "-inf">>)
                             [] OTHER -> PickD(sid, k + 1, Odd))
FinNum(k) == LET n == AnyNum(k) IN IF n.s \in {"inf", "-inf"} THEN Scalar("num", "3.25") ELSE n
\* (a quaternion written by hand is not exactly of length 1)
QNode(k) == LET q == DrawQ(sid, k) n == RDiv(RSqrt(QSq(q)), RParse(PickD(sid, k + 8, <<"1", "1", "1", "1.00003", "0.9999", "0.999", "2">>))) s == IF D(sid, k + 7, 0, 1) = 0 THEN ROne ELSE RNeg(ROne) IN [i \in 1..4 |-> Scalar("num", RDec(RDiv(RMul(s, q[i]), n)))]
\* angles: anything, with pitch at and near a quarter turn too
AngleNode(k, pitch) == Scalar("num", IF D(sid, k, 0, 3) = 0 THEN PickD(sid, k + 1, IF pitch THEN <<"1.5707963267948966", "-1.5707963267948966", "1.5707963", "-1.57079", "0">> ELSE <<"3.141592653589793", "-3.141592653589793", "1.5707963267948966", "0", "3.14159">>)
                             ELSE RDec(F(sid, k + 2, -3000, 3000, 1000)))
NList(k) == CASE D(sid, k, 0, 9) = 0 -> 0 [] D(sid, k, 0, 9) = 1 /\ Type \in {"obs2", "obs3"} -> 25 [] OTHER -> D(sid, k + 1, 1, 4)
RECURSIVE Make(_, _)
Make(type, k) ==
  CASE type = "num" -> AnyNum(k)
    [] type = "bool" -> Scalar("bool", PickD(sid, k, <<"true", "false">>))
    [] type = "kind" -> Scalar("num", PickD(sid, k, <<"0", "1">>))
    [] type = "name" -> Scalar("str", PickD(sid, k, <<"joint_1", "a", "wrist", "shoulder_pan", "J2">>))
    [] type = "pose" -> LET q == Strict(QNode(k)) IN Map(<<"x", "y", "z", "qw", "qx", "qy", "qz">>, << FinNum(k + 10), FinNum(k + 14), FinNum(k + 18) >> \o q)
    [] type = "rpy" -> Map(<<"x", "y", "z">>, << AngleNode(k, FALSE), AngleNode(k + 5, TRUE), AngleNode(k + 10, FALSE) >>)
    [] IsList(type) -> Seq_([i \in 1..NList(k) |-> Make(Elem(type), k + 3 + 211*i)])
    [] OTHER -> LET f == Schema(type).f IN
          Map([i \in 1..Len(f) |-> f[i][1]], [i \in 1..Len(f) |-> Make(IF type = "result" /\ i >= 6 THEN "rpy" ELSE f[i][2], k + 31*i)])
\* fields in another order
RECURSIVE Shuffle(_, _)
Shuffle(n, k) == CASE n.t = "map" -> LET o == Perm(St(sid), k, Len(n.k)) IN Map([i \in 1..Len(o) |-> n.k[o[i]]], [i \in 1..Len(o) |-> Shuffle(n.v[o[i]], k + i)])
                   [] n.t = "seq" -> Seq_([i \in 1..Len(n.v) |-> Shuffle(n.v[i], k + i)])
                   [] OTHER -> n
Init == sid \in 1..N /\ phase = "start" /\ doc = Null /\ faults = 0
Write == /\ phase = "start" /\ doc' = Strict(Make(Type, 100)) /\ phase' = (IF MODE = "C10" THEN "damage" ELSE "ready") /\ UNCHANGED <<sid, faults>>
Drop(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Put(s, i, x) == [s EXCEPT ![i] = x]
\* what a node can be replaced with
Other(k) == << Null, Scalar("str", "abc"), Scalar("str", "1.5x"), Scalar("str", "1 2"), Scalar("str", "2,5"), Scalar("bool", "true"), Map(<<>>, <<>>), Seq_(<<>>), Seq_(<<Scalar("num", "1.5")>>),
               Seq_([i \in 1..4 |-> Scalar("num", "0.5")]), Map(<<"x">>, <<Scalar("num", "2")>>), Scalar("num", "4.5"), Scalar("num", "-1"), Scalar("num", "2"), Seq_(<<Map(<<>>, <<>>)>>) >>[D(sid, k, 1, 15)]
\* a list written as numbered fields, fields written as a list
Turned(n) == IF n.t = "seq" THEN Map([i \in 1..Len(n.v) |-> ToString(i - 1)], n.v) ELSE Seq_(n.v)
\* kinds of joint there are not
NoKind(k) == Scalar("num", PickD(sid, k, <<"2", "3", "7", "-1", "255", "256", "65536", "4294967295", "4294967296", "0.5">>))
\* damage one place: walk down at random, then break
RECURSIVE Break(_, _)
Break(n, k) ==
  IF n.t = "map" /\ Len(n.k) > 0
  THEN LET i == D(sid, k, 1, Len(n.k)) IN
       IF n.k[1] = "type" /\ C(sid, k + 6, 40) THEN Map(n.k, Put(n.v, 1, NoKind(k + 7)))
       ELSE IF n.v[i].t \in {"map", "seq"} /\ C(sid, k + 8, 20) THEN Map(n.k, Put(n.v, i, Turned(n.v[i])))
       ELSE IF n.v[i].t \in {"map", "seq"} /\ C(sid, k + 1, 65) THEN Map(n.k, Put(n.v, i, Break(n.v[i], k + 10)))
       ELSE CASE D(sid, k + 2, 0, 5) = 0 -> Map(Append(n.k, PickD(sid, k + 3, <<"extra", "covariance", "w">>)), Append(n.v, Other(k + 4)))
              [] D(sid, k + 2, 0, 5) = 1 -> Map(Put(n.k, i, n.k[i] \o "_"), n.v)
              [] D(sid, k + 2, 0, 5) \in {2, 3} -> Map(Drop(n.k, i), Drop(n.v, i))
              [] OTHER -> Map(n.k, Put(n.v, i, Other(k + 4)))
  ELSE IF n.t = "seq" /\ Len(n.v) > 0
  THEN LET i == D(sid, k, 1, Len(n.v)) IN
       IF n.v[i].t \in {"map", "seq"} /\ C(sid, k + 1, 80) THEN Seq_(Put(n.v, i, Break(n.v[i], k + 10))) ELSE Seq_(Put(n.v, i, Other(k + 4)))
  ELSE Other(k + 5)
Damage == /\ phase = "damage" /\ doc' = Strict(Break(doc, 5000 + 300*faults)) /\ faults' = faults + 1
          /\ phase' = (IF C(sid, 90 + faults, 85) THEN "ready" ELSE "damage") /\ UNCHANGED sid
\* a name is any text, so nothing can be said when it is missing its text
RECURSIVE Nameless(_, _)
Nameless(type, n) == IF type = "name" THEN n.t = "null"
                     ELSE IF IsList(type) THEN n.t = "seq" /\ \E i \in 1..Len(n.v) : Nameless(Elem(type), n.v[i])
                     ELSE IF type \in {"dh", "chain"} THEN n.t = "map" /\ \E i \in 1..Len(Schema(type).f) : LET f == Schema(type).f[i] IN Has(n, f[1]) /\ Nameless(f[2], Get(n, f[1]))
                     ELSE FALSE
Cyclic == MODE = "C09" /\ Type \notin {"dh", "chain"} /\ D(sid, 91, 0, 3) > 0
Case == [id |-> MODE \o "-" \o (IF Type = "list pose" THEN "poses" ELSE Type) \o "-" \o ToString(sid), op |-> IF Cyclic THEN "cycle" ELSE "read", type |-> Type,
         doc |-> IF MODE = "C09" THEN Shuffle(doc, 7000) ELSE doc,
         cycles |-> PickD(sid, 92, <<1, 2, 5, 60>>), via |-> PickD(sid, 93, <<"node", "text", "file">>)]
Emit == phase = "ready" /\ (~Nameless(Type, doc) => PrintT("CASE " \o ToJson(Case))) /\ phase' = "done" /\ UNCHANGED <<sid, doc, faults>>
Next == Write \/ Damage \/ Emit
Spec == Init /\ [][Next]_vars
\* ---- what the model promises ----
\* what is written is a document of its type, whatever the order of its fields
Written == (phase = "damage" /\ faults = 0) \/ (phase = "ready" /\ MODE = "C09") => Valid(Type, doc) /\ Valid(Type, Shuffle(doc, 7000))
\* the order of the fields does not change what a document says
OrderFree == phase = "ready" /\ Valid(Type, doc) => Valid(Type, Shuffle(doc, 8000))
\* no field is optional: deleting any one of a valid document makes it invalid
NoneOptional == phase = "ready" /\ MODE = "C09" /\ doc.t = "map" => \A i \in 1..Len(doc.k) : ~Valid(Type, Map(Drop(doc.k, i), Drop(doc.v, i)))
\* strict types know exactly their fields
NoneAdded == phase = "ready" /\ MODE = "C09" /\ doc.t = "map" => (Schema(Type).only <=> ~Valid(Type, Map(Append(doc.k, "extra"), Append(doc.v, Null))))
=============================================================================
