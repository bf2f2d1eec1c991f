-------------------------------- MODULE Doc ---------------------------------
(***************************************************************************)
(* The documents values are saved in.  A node is [t |-> "map", k |-> names,*)
(* v |-> nodes], [t |-> "seq", v |-> nodes], [t |-> "num", s |-> text],    *)
(* [t |-> "bool", s], [t |-> "str", s] or [t |-> "null"].  The schema of a *)
(* type gives its fields and whether others are refused; Valid says which  *)
(* nodes are documents of a type.                                          *)
(***************************************************************************)
EXTENDS Geom
Map(k, v) == [t |-> "map", k |-> k, v |-> v]
Seq_(v) == [t |-> "seq", v |-> v]
Scalar(t, s) == [t |-> t, s |-> s]
Null == [t |-> "null"]
Schema(type) ==
  CASE type = "vec2" -> [only |-> FALSE, f |-> << <<"x","num">>, <<"y","num">> >>]
    [] type = "vec3" -> [only |-> FALSE, f |-> << <<"x","num">>, <<"y","num">>, <<"z","num">> >>]
    [] type = "pose" -> [only |-> FALSE, f |-> << <<"x","num">>, <<"y","num">>, <<"z","num">>, <<"qw","num">>, <<"qx","num">>, <<"qy","num">>, <<"qz","num">> >>]
    [] type = "intr" -> [only |-> TRUE, f |-> << <<"cx","num">>, <<"cy","num">>, <<"fx","num">>, <<"fy","num">> >>]
    [] type = "corr2" -> [only |-> TRUE, f |-> << <<"in_image","vec2">>, <<"in_target","vec3">> >>]
    [] type = "corr3" -> [only |-> TRUE, f |-> << <<"in_image","vec3">>, <<"in_target","vec3">> >>]
    [] type = "obs2" -> [only |-> TRUE, f |-> << <<"correspondences","list corr2">>, <<"to_target_mount","pose">>, <<"to_camera_mount","pose">> >>]
    [] type = "obs3" -> [only |-> TRUE, f |-> << <<"correspondences","list corr3">>, <<"to_target_mount","pose">>, <<"to_camera_mount","pose">> >>]
    [] type = "prob2" -> [only |-> TRUE, f |-> << <<"intr","intr">>, <<"camera_mount_to_camera_guess","pose">>, <<"target_mount_to_target_guess","pose">>, <<"observations","list obs2">> >>]
    [] type = "prob3" -> [only |-> TRUE, f |-> << <<"camera_mount_to_camera_guess","pose">>, <<"target_mount_to_target_guess","pose">>, <<"observations","list obs3">> >>]
    [] type = "result" -> [only |-> TRUE, f |-> << <<"converged","bool">>, <<"initial_cost_per_obs","num">>, <<"final_cost_per_obs","num">>, <<"target_mount_to_target_pos","vec3">>, <<"camera_mount_to_camera_pos","vec3">>, <<"target_mount_to_target_rpy","vec3">>, <<"camera_mount_to_camera_rpy","vec3">> >>]
    [] type = "dh" -> [only |-> FALSE, f |-> << <<"type","kind">>, <<"d","num">>, <<"theta","num">>, <<"r","num">>, <<"alpha","num">>, <<"joint_name","name">> >>]
    [] type = "chain" -> [only |-> FALSE, f |-> << <<"base_transform","pose">>, <<"dh_transforms","list dh">> >>]
IsList(type) == type \in {"list corr2", "list corr3", "list obs2", "list obs3", "list dh", "list pose"}
Elem(type) == CASE type = "list corr2" -> "corr2" [] type = "list corr3" -> "corr3" [] type = "list obs2" -> "obs2" [] type = "list obs3" -> "obs3" [] type = "list pose" -> "pose" [] OTHER -> "dh"
At(n, name) == { i \in 1..Len(n.k) : n.k[i] = name }
Has(n, name) == At(n, name) # {}
Get(n, name) == n.v[CHOOSE i \in At(n, name) : TRUE]
RECURSIVE Valid(_, _)
Valid(type, n) ==
  CASE type = "num" -> n.t = "num"
    [] type = "bool" -> n.t = "bool"
    [] type = "kind" -> n.t = "num" /\ n.s \in {"0", "1"}
    [] type = "name" -> n.t \in {"num", "bool", "str"}
    [] IsList(type) -> n.t = "seq" /\ \A i \in 1..Len(n.v) : Valid(Elem(type), n.v[i])
    [] OTHER -> n.t = "map" /\ LET s == Schema(type) IN
                   /\ s.only => Len(n.k) = Len(s.f)
                   /\ \A i \in 1..Len(s.f) : Has(n, s.f[i][1]) /\ Valid(s.f[i][2], Get(n, s.f[i][1]))
\* ---- the value a valid document stands for, and comparing it with a value read back ----
Is(n, x) == IF RIsNum(n.s) /\ RIsNum(x) THEN RLe(RAbs(RSub(Num(n.s), Num(x))), RAdd(RMul(RParse("3e-16"), RAbs(Num(n.s))), RParse("5e-324")))
            ELSE n.s = x
Names2 == <<"x", "y">>
Names3 == <<"x", "y", "z">>
IsVec(n, v, names) == Len(v) = Len(names) /\ \A i \in 1..Len(v) : Is(Get(n, names[i]), v[i])
NodeNum(n, name) == Num(Get(n, name).s)
NodeQ(n) == << NodeNum(n, "qw"), NodeNum(n, "qx"), NodeNum(n, "qy"), NodeNum(n, "qz") >>
Finite(x) == IF RIsNum(x) THEN RLt(RAbs(Num(x)), RParse("1e15")) ELSE FALSE
\* a pose read back is 12 numbers, row by row
\* four zeros are no orientation: nothing is said about the rotation they give
Unit(n) == RLt(RParse("1e-6"), QSq(NodeQ(n)))
IsPose(n, p) == Is(Get(n, "x"), p[4]) /\ Is(Get(n, "y"), p[8]) /\ Is(Get(n, "z"), p[12]) /\ IF ~Unit(n) THEN TRUE ELSE
                /\ \A i \in {1,2,3,5,6,7,9,10,11} : Finite(p[i])
                /\ MNear(<< <<Num(p[1]), Num(p[2]), Num(p[3])>>, <<Num(p[5]), Num(p[6]), Num(p[7])>>, <<Num(p[9]), Num(p[10]), Num(p[11])>> >>, QMat(NodeQ(n)), RParse("1e-11"))
\* roll, pitch, yaw: Rz(yaw) Ry(pitch) Rx(roll)
Rz(a) == << <<RCos(a), RNeg(RSin(a)), RZero>>, <<RSin(a), RCos(a), RZero>>, <<RZero, RZero, ROne>> >>
Ry(a) == << <<RCos(a), RZero, RSin(a)>>, <<RZero, ROne, RZero>>, <<RNeg(RSin(a)), RZero, RCos(a)>> >>
Rx(a) == << <<ROne, RZero, RZero>>, <<RZero, RCos(a), RNeg(RSin(a))>>, <<RZero, RSin(a), RCos(a)>> >>
Rpy(n) == MMul(Strict(Rz(NodeNum(n, "z"))), Strict(MMul(Strict(Ry(NodeNum(n, "y"))), Strict(Rx(NodeNum(n, "x"))))))
IsPosRpy(pos, rpy, p) == /\ Is(Get(pos, "x"), p[4]) /\ Is(Get(pos, "y"), p[8]) /\ Is(Get(pos, "z"), p[12])
                         /\ \A i \in {1,2,3,5,6,7,9,10,11} : Finite(p[i])
                         /\ MNear(<< <<Num(p[1]), Num(p[2]), Num(p[3])>>, <<Num(p[5]), Num(p[6]), Num(p[7])>>, <<Num(p[9]), Num(p[10]), Num(p[11])>> >>, Rpy(rpy), RParse("1e-9"))
RECURSIVE Says(_, _, _)
Says(type, n, v) ==
  CASE type = "vec2" -> IsVec(n, v, Names2)
    [] type = "vec3" -> IsVec(n, v, Names3)
    [] type = "pose" -> IsPose(n, v)
    [] type = "intr" -> Is(Get(n, "fx"), v[1]) /\ Is(Get(n, "fy"), v[2]) /\ Is(Get(n, "cx"), v[3]) /\ Is(Get(n, "cy"), v[4])
    [] type = "corr2" -> IsVec(Get(n, "in_image"), v.o, Names2) /\ IsVec(Get(n, "in_target"), v.p, Names3)
    [] type = "corr3" -> IsVec(Get(n, "in_image"), v.o, Names3) /\ IsVec(Get(n, "in_target"), v.p, Names3)
    [] IsList(type) -> Len(n.v) = Len(v) /\ \A i \in 1..Len(v) : Says(Elem(type), n.v[i], v[i])
    [] type \in {"obs2", "obs3"} -> /\ Says(IF type = "obs2" THEN "list corr2" ELSE "list corr3", Get(n, "correspondences"), v.feats)
                                    /\ IsPose(Get(n, "to_target_mount"), v.tm) /\ IsPose(Get(n, "to_camera_mount"), v.cm)
    [] type \in {"prob2", "prob3"} -> /\ (type = "prob2" => Says("intr", Get(n, "intr"), v.intr))
                                      /\ IsPose(Get(n, "camera_mount_to_camera_guess"), v.cam) /\ IsPose(Get(n, "target_mount_to_target_guess"), v.tgt)
                                      /\ Says(IF type = "prob2" THEN "list obs2" ELSE "list obs3", Get(n, "observations"), v.obs)
    [] type = "result" -> /\ v.converged = (Get(n, "converged").s = "true")
                          /\ Is(Get(n, "initial_cost_per_obs"), v.init) /\ Is(Get(n, "final_cost_per_obs"), v.final)
                          /\ IsPosRpy(Get(n, "target_mount_to_target_pos"), Get(n, "target_mount_to_target_rpy"), v.tgt)
                          /\ IsPosRpy(Get(n, "camera_mount_to_camera_pos"), Get(n, "camera_mount_to_camera_rpy"), v.cam)
    [] type = "dh" -> /\ v.type = Get(n, "type").s /\ v.name = Get(n, "joint_name").s
                      /\ Is(Get(n, "d"), v.params[1]) /\ Is(Get(n, "theta"), v.params[2]) /\ Is(Get(n, "r"), v.params[3]) /\ Is(Get(n, "alpha"), v.params[4])
    [] type = "chain" -> IsPose(Get(n, "base_transform"), v.base) /\ Says("list dh", Get(n, "dh_transforms"), v.joints)
\* two printed values are the same: numbers exactly, poses to rounding
SameNum(a, b) == IF RIsNum(a) /\ RIsNum(b) THEN REq(Num(a), Num(b)) ELSE a = b
SameNums(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : SameNum(a[i], b[i])
SameFeats(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : SameNums(a[i].o, b[i].o) /\ SameNums(a[i].p, b[i].p)
SamePose(a, b) == \A i \in 1..12 : IF i \in {4, 8, 12} THEN SameNum(a[i], b[i]) ELSE Finite(a[i]) /\ Finite(b[i]) /\ RNear(Num(a[i]), Num(b[i]), RParse("1e-9"))
RECURSIVE Same(_, _, _)
Same(type, a, b) ==
  CASE type \in {"vec2", "vec3", "intr"} -> SameNums(a, b)
    [] type \in {"corr2", "corr3"} -> SameFeats(<<a>>, <<b>>)
    [] type = "dh" -> a.type = b.type /\ a.name = b.name /\ SameNums(a.params, b.params)
    [] type = "pose" -> SamePose(a, b)
    [] IsList(type) -> Len(a) = Len(b) /\ \A i \in 1..Len(a) : Same(Elem(type), a[i], b[i])
    [] type \in {"obs2", "obs3"} -> SameFeats(a.feats, b.feats) /\ SamePose(a.tm, b.tm) /\ SamePose(a.cm, b.cm)
    [] type \in {"prob2", "prob3"} -> (type = "prob2" => SameNums(a.intr, b.intr)) /\ SamePose(a.cam, b.cam) /\ SamePose(a.tgt, b.tgt) /\ Same(IF type = "prob2" THEN "list obs2" ELSE "list obs3", a.obs, b.obs)
    [] type = "result" -> a.converged = b.converged /\ SameNum(a.init, b.init) /\ SameNum(a.final, b.final) /\ SamePose(a.tgt, b.tgt) /\ SamePose(a.cam, b.cam)
    [] type = "chain" -> SamePose(a.base, b.base) /\ Same("list dh", a.joints, b.joints)
=============================================================================
