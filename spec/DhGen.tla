------------------------------- MODULE DhGen --------------------------------
(***************************************************************************)
(* A chain is assembled joint by joint, moved joint by joint, and asked    *)
(* for its pose, with and without parameter offsets; joint vectors and     *)
(* offset tables may be too short or too long.                             *)
(***************************************************************************)
EXTENDS Dh, Draws
VARIABLES sid, phase, base, links, js, at
vars == <<sid, phase, base, links, js, at>>
Dof(s) == IF D(s, 1, 0, 14) = 0 THEN 0 ELSE D(s, 1, 1, 7)
\* joint values: a prefix, all, or more than there are joints
NJ(s) == CASE D(s, 2, 0, 7) = 0 -> Dof(s) + D(s, 3, 1, 2) [] D(s, 2, 0, 7) \in {1, 2, 3} -> D(s, 3, 0, Dof(s)) [] OTHER -> Dof(s)
Rows(s) == CASE D(s, 4, 0, 7) = 0 -> D(s, 5, 0, Dof(s)) [] D(s, 4, 0, 7) = 1 -> Dof(s) + D(s, 5, 1, 3) [] OTHER -> Dof(s)
Ang(k) == IF D(sid, k, 0, 3) = 0 THEN PickD(sid, k + 1, << "1.5707963267948966", "-1.5707963267948966", "3.1415926535897931", "0", "-3.1415926535897931", "6.283185307179586" >>) ELSE RDec(F(sid, k + 2, -4000, 4000, PickD(sid, k + 3, <<1000, 100000, 300>>)))
Len_(k) == IF D(sid, k, 0, 4) = 0 THEN "0" ELSE RDec(F(sid, k + 1, -2000, 2000, PickD(sid, k + 2, <<1000, 1000000, 100>>)))
Init == sid \in 1..N /\ phase = "start" /\ base = <<>> /\ links = <<>> /\ js = <<>> /\ at = <<>>
Start == /\ phase = "start" /\ base' = DrawPose(sid, 20, 40) /\ at' = PM(base') /\ phase' = "assemble" /\ UNCHANGED <<sid, links, js>>
\* limits: usual, one-sided, narrow, a single value
Limits(i) == PickD(sid, 300 + i, << <<"-3.14159", "3.14159">>, <<"0.25", "0.75">>, <<"-2", "-1.5">>, <<"0.001", "0.002">>, <<"-100", "250">>, <<"-0.5", "0.1">> >>)
Name(i) == PickD(sid, 320 + i, <<"j", "joint_1", "wrist">>) \o ToString(i)
Assemble == /\ phase = "assemble" /\ Len(links) < Dof(sid)
            /\ links' = Append(links, LET i == Len(links) + 1 IN
                 Strict([type |-> PickD(sid, 100 + i, <<"0", "1", "1">>), s |-> << Len_(110 + 20*i), Ang(114 + 20*i), Len_(118 + 20*i), Ang(122 + 20*i) >>, name |-> Name(i), lim |-> Limits(i)]))
            /\ UNCHANGED <<sid, phase, base, js, at>>
Ready == phase = "assemble" /\ Len(links) = Dof(sid) /\ phase' = "move" /\ UNCHANGED <<sid, base, links, js, at>>
PV(i) == NumV(links[i].s)
JointS(i) == IF i <= Dof(sid) /\ links[i].type = "0" THEN Len_(400 + 7*i) ELSE Ang(400 + 7*i)
\* moving one more joint takes the chain's end one link further
Move == /\ phase = "move" /\ Len(js) < NJ(sid)
        /\ LET i == Len(js) + 1 s == Strict(JointS(i)) IN
           /\ js' = Append(js, s)
           /\ at' = IF i <= Dof(sid) THEN Strict(RP(MPMul(at, Link(links[i].type, PV(i), Num(s), NoOffset)))) ELSE at
        /\ UNCHANGED <<sid, phase, base, links>>
Moved == phase = "move" /\ Len(js) = NJ(sid) /\ phase' = "ready" /\ UNCHANGED <<sid, base, links, js, at>>
Offs == [i \in 1..Rows(sid) |-> [k \in 1..4 |-> IF C(sid, 500 + 4*i + k, 40) THEN "0" ELSE RDec(F(sid, 600 + 4*i + k, -500, 500, PickD(sid, 700 + k, <<1000, 10000>>)))]]
Case == [id |-> "C11-" \o ToString(sid), op |-> "fk", base |-> DecPose(base),
         links |-> [i \in 1..Len(links) |-> [type |-> links[i].type, p |-> links[i].s, name |-> links[i].name, lim |-> links[i].lim]],
         js |-> js, offs |-> Offs, draws |-> 40, ask |-> D(sid, 6, -1, Dof(sid))]
Emit == phase = "ready" /\ PrintT("CASE " \o ToJson(Case)) /\ phase' = "done" /\ UNCHANGED <<sid, base, links, js, at>>
Next == Start \/ Assemble \/ Ready \/ Move \/ Moved \/ Emit
Spec == Init /\ [][Next]_vars
\* ---- what the model promises ----
\* the pose reached step by step is the one the product gives, and is rigid
Tol == RParse("1e-25")
Product == phase = "ready" /\ NJ(sid) <= Dof(sid) => MPNear(at, Fk(PM(base), [i \in 1..Len(links) |-> [type |-> links[i].type, p |-> PV(i)]], NumV(js), [i \in 1..Len(js) |-> NoOffset]), Tol, Tol)
Rigid == phase \in {"move", "ready"} => IsRotation(at.m, RParse("1e-24"))
\* a joint value does what an offset of its own variable does
OwnVariable == phase = "ready" /\ Len(links) > 0 => LET x == RFrac(7, 5) t == links[1].type IN
   Link(t, PV(1), x, NoOffset) = Link(t, PV(1), RZero, IF t = "0" THEN <<x, RZero, RZero, RZero>> ELSE <<RZero, x, RZero, RZero>>)
\* the transform is the documented product
Tz(d) == [m |-> MId, t |-> <<RZero, RZero, d>>]
Tx(d) == [m |-> MId, t |-> <<d, RZero, RZero>>]
RotZ(a) == [m |-> << <<Cs(a), RNeg(Sn(a)), RZero>>, <<Sn(a), Cs(a), RZero>>, VInt(0, 0, 1) >>, t |-> VZero]
RotX(a) == [m |-> << VInt(1, 0, 0), <<RZero, Cs(a), RNeg(Sn(a))>>, <<RZero, Sn(a), Cs(a)>> >>, t |-> VZero]
Classical == phase = "ready" /\ Len(links) > 0 => LET p == PV(1) IN
   MPNear(Link("1", p, RZero, NoOffset), MPMul(Strict(MPMul(Tz(p[1]), Strict(RotZ(p[2])))), Strict(MPMul(Tx(p[3]), Strict(RotX(p[4]))))), Tol, Tol)
=============================================================================
