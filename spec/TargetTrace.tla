---------------------------- MODULE TargetTrace -----------------------------
(* defined -> paired: what a target says about itself and about found features. *)
EXTENDS Target, TraceIO
VARIABLES l, ph
vars == <<l, ph>>
T == Trace[l]
Read(t) == Strict([kind |-> t.kind, rows |-> t.rows, cols |-> t.cols, a |-> Num(t.a), b |-> Num(t.b), dict |-> t.dict, first |-> t.first])
Me == Read(T.in.t)
Found == Strict({[id |-> T.in.found[i].id, at |-> [k \in 1..Len(T.in.found[i].at) |-> NumV(T.in.found[i].at[k])]] : i \in 1..Len(T.in.found)})
\* dimensions are single precision numbers
Tol(t) == RMul(RParse("3e-7"), RMul(RInt(t.rows + t.cols + 2), RAdd(t.a, t.b)))
Near(j, p, tol) == FiniteSeq(j) /\ VNear(NumV(j), p, tol)
Init == l \in 1..Len(Trace) /\ ph = "defined"
Lost == ph = "defined" /\ T.out.status # "ok" /\ Clause(T.id, "no answer: " \o T.out.status, FALSE) /\ UNCHANGED vars
Defined == /\ ph = "defined" /\ T.out.status = "ok"
           /\ TRUE = (LET t == Me tol == Tol(t) pts == T.out.points IN
                /\ Clause(T.id, "identifiers", {pts[i].id : i \in 1..Len(pts)} = Ids(t) /\ Len(pts) = Count(t))
                /\ \A i \in 1..Len(pts) : LET e == Points(t, pts[i].id) IN
                     Clause(T.id, "place of a feature", Len(pts[i].at) = Len(e) /\ \A k \in 1..Len(e) : Near(pts[i].at[k], e[k], tol)))
           /\ ph' = "placed" /\ UNCHANGED l
Paired == /\ ph = "placed"
          /\ TRUE = (LET t == Me f == Found tol == Tol(t) o == T.out.pairs IN
                IF Fits(t, f) THEN
                  /\ Clause(T.id, "found features were refused", o.ok)
                  /\ LET e == Pairs(t, f) IN /\ Clause(T.id, "number of correspondences", Len(o.x) = Len(e))
                                             /\ \A i \in 1..Len(e) : Clause(T.id, "correspondence", Near(o.x[i][2], e[i][2], tol) /\ FiniteSeq(o.x[i][1]) /\ \A k \in 1..2 : RNear(Num(o.x[i][1][k]), e[i][1][k], RParse("1e-9")))
                ELSE Clause(T.id, "features that do not fit the target were accepted", ~o.ok))
          /\ ph' = "paired" /\ UNCHANGED l
Compared == /\ ph = "paired"
            /\ TRUE = (/\ Clause(T.id, "a target is not equal to itself", T.out.self /\ T.out.copy)
                       /\ Clause(T.id, "equality of targets", T.out.eq = Same(Me, Read(T.in.other)) /\ T.out.eqr = T.out.eq))
            /\ Accept(T.id) /\ ph' = "end" /\ UNCHANGED l
Next == Lost \/ Defined \/ Paired \/ Compared
Spec == Init /\ [][Next]_vars
=============================================================================
