------------------------------ MODULE DhTrace -------------------------------
(* assembled -> asked: every answer of a chain against its product of links. *)
EXTENDS Dh, TraceIO
VARIABLES l, ph
vars == <<l, ph>>
T == Trace[l]
Dof == Len(T.in.links)
NJ == Len(T.in.js)
NR == Len(T.in.offs)
Links(off) == Strict([i \in 1..Dof |-> [type |-> T.in.links[i].type, p |-> LET q == NumV(T.in.links[i].p) IN IF off THEN LET o == NumV(T.in.offs[i]) IN [k \in 1..4 |-> RAdd(q[k], o[k])] ELSE q]])
Js == NumV(T.in.js)
Offs == Strict([i \in 1..NR |-> NumV(T.in.offs[i])])
None == [i \in 1..Dof |-> NoOffset]
Base == PM(ReadPose(T.in.base))
Tol == RParse("1e-9")
\* answers are [ok |-> TRUE, ...] or [ok |-> FALSE]
PoseIs(o, e) == o.ok /\ FiniteSeq(o.x) /\ MPNear(ReadMPose(o.x), e, Tol, RMul(Tol, RInt(30)))
Answer(name, o, fits, e(_)) == IF fits THEN Clause(T.id, name \o " is not the product of the links", o.ok /\ PoseIs(o, e(0)))
                               ELSE Clause(T.id, name \o ": sizes that do not fit were accepted", ~o.ok)
Init == l \in 1..Len(Trace) /\ ph = "assembled"
Lost == ph = "assembled" /\ T.out.status # "ok" /\ Clause(T.id, "no answer: " \o T.out.status, FALSE) /\ UNCHANGED vars
Poses == /\ ph = "assembled" /\ T.out.status = "ok"
         /\ TRUE = (LET ls == Links(FALSE) b == Strict(Base) js == Js os == Offs
                        plain(z) == Fk(b, ls, js, None) moved(z) == Fk(b, ls, js, os) IN
                    /\ Answer("pose", T.out.fk, NJ <= Dof, plain)
                    /\ Answer("pose of differentiable numbers", T.out.jet, NJ <= Dof, plain)
                    /\ Answer("pose with offsets", T.out.fko, NJ <= Dof /\ NJ <= NR, moved)
                    /\ Answer("pose of the offset chain", T.out.chain, NR >= Dof /\ NJ <= Dof, moved)
                    /\ \A i \in 1..Dof : LET e(z) == Link(ls[i].type, ls[i].p, RFrac(3, 5), NoOffset) IN Answer("relative pose of a link", T.out.rel[i], TRUE, e)
                    /\ LET e(z) == Link(ls[T.in.ask + 1].type, ls[T.in.ask + 1].p, RFrac(3, 5), NoOffset) IN Answer("relative pose of the asked link", T.out.asked, T.in.ask >= 0 /\ T.in.ask < Dof, e))
         /\ ph' = "posed" /\ UNCHANGED l
Labels(n) == << n \o "_d", n \o "_theta", n \o "_r", n \o "_alpha" >>
Description(name, o, off) ==
  /\ Clause(T.id, name \o ": number of joints", o.dof = Dof /\ Len(o.table) = Dof /\ Len(o.types) = Dof /\ Len(o.labels) = Dof)
  /\ \A i \in 1..Dof : /\ Clause(T.id, name \o ": joint type", o.types[i] = T.in.links[i].type)
                       /\ Clause(T.id, name \o ": parameter names", o.labels[i] = Labels(T.in.links[i].name))
                       /\ LET p == Links(off)[i].p IN Clause(T.id, name \o ": parameters", \A k \in 1..4 : RIsNum(o.table[i][k]) /\ RNear(Num(o.table[i][k]), p[k], RParse("1e-14")))
  /\ Clause(T.id, name \o ": base", MPNear(ReadMPose(o.base), Base, RParse("1e-12"), RParse("1e-12")))
  /\ \A n \in 1..Len(o.random) : /\ Clause(T.id, name \o ": size of a random joint vector", Len(o.random[n]) = Dof)
                                 /\ \A i \in 1..Dof : LET v == o.random[n][i] IN Clause(T.id, name \o ": random joint value outside the limits of its joint",
                                        RIsNum(v) /\ RLe(RSub(Num(T.in.links[i].lim[1]), RParse("1e-12")), Num(v)) /\ RLe(Num(v), RAdd(Num(T.in.links[i].lim[2]), RParse("1e-12"))))
\* a drawn joint value falls in either half of its range (each draw misses a half with probability 1/2)
Spread(name, o) == Len(o.random) < 40 \/ \A i \in 1..Dof : LET mid == RDiv(RAdd(Num(T.in.links[i].lim[1]), Num(T.in.links[i].lim[2])), RInt(2)) IN
   Clause(T.id, name \o ": random joint values miss a half of the range", (\E n \in 1..Len(o.random) : RLt(Num(o.random[n][i]), mid)) /\ (\E n \in 1..Len(o.random) : RLt(mid, Num(o.random[n][i]))))
Describe == /\ ph = "posed"
            /\ TRUE = (Description("chain", T.out.desc, FALSE) /\ Spread("chain", T.out.desc) /\ (NR >= Dof => Description("offset chain", T.out.odesc, TRUE)))
            /\ Accept(T.id) /\ ph' = "end" /\ UNCHANGED l
Next == Lost \/ Poses \/ Describe
Spec == Init /\ [][Next]_vars
=============================================================================
