---------------------------- MODULE CorrSetTrace -----------------------------
(* given -> counted -> paired *)
EXTENDS Target, TraceIO
VARIABLES l, ph
vars == <<l, ph>>
T == Trace[l]
O == T.out
Cams == T.in.cams
Read(t) == Strict([kind |-> t.kind, rows |-> t.rows, cols |-> t.cols, a |-> Num(t.a), b |-> Num(t.b), dict |-> t.dict, first |-> t.first])
FoundOf(x) == Strict({[id |-> x.found[i].id, at |-> [k \in 1..Len(x.found[i].at) |-> NumV(x.found[i].at[k])]] : i \in 1..Len(x.found)})
Max(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
Images == Max({Len(Cams[c]) : c \in 1..Len(Cams)})
Even == \A c \in 1..Len(Cams) : Len(Cams[c]) = Images
\* the target is found when there are features and they belong to it
IsFound(t, c, i) == i <= Len(Cams[c]) /\ LET x == T.in.script[Cams[c][i] + 1] IN x.how = "seen" /\ Len(x.found) > 0 /\ Fits(t, FoundOf(x))
Init == l \in 1..Len(Trace) /\ ph = "given"
Lost == ph = "given" /\ O.status \notin {"ok", "throw"} /\ Clause(T.id, "no answer: " \o O.status, FALSE) /\ UNCHANGED vars
\* cameras with different numbers of pictures may be refused
Refused == /\ ph = "given" /\ O.status = "throw" /\ Clause(T.id, "refused: " \o O.what, Len(Cams) = 0 \/ ~Even)
           /\ Accept(T.id) /\ ph' = "end" /\ UNCHANGED l
Counted == /\ ph = "given" /\ O.status = "ok"
           /\ TRUE = (LET t == Read(T.in.t) hit(c, i) == IF IsFound(t, c, i) THEN 1 ELSE 0
                          RECURSIVE S(_, _)
                          S(f, n) == IF n = 0 THEN 0 ELSE f[n] + S(f, n - 1) IN
                /\ Clause(T.id, "number of cameras", O.cams = Len(Cams))
                /\ Clause(T.id, "number of pictures", O.images = Images)
                /\ \A c \in 1..Len(Cams) : \A i \in 1..Images : Clause(T.id, "target found in a picture", O.cell[c][i].found = IsFound(t, c, i))
                /\ \A c \in 1..Len(Cams) : Clause(T.id, "pictures of a camera with the target", O.percam[c] = S(Strict([i \in 1..Images |-> hit(c, i)]), Images))
                /\ \A i \in 1..Images : Clause(T.id, "cameras that saw the target in a picture", O.perimage[i] = S(Strict([c \in 1..Len(Cams) |-> hit(c, i)]), Len(Cams))))
           /\ ph' = "counted" /\ UNCHANGED l
Tol(t) == RMul(RParse("3e-7"), RMul(RInt(t.rows + t.cols + 2), RAdd(t.a, t.b)))
Paired == /\ ph = "counted"
          /\ TRUE = (LET t == Read(T.in.t) tol == Strict(Tol(t)) IN
               \A c \in 1..Len(Cams) : \A i \in 1..Images :
                 IF IsFound(t, c, i)
                 THEN LET e == Strict(Pairs(t, FoundOf(T.in.script[Cams[c][i] + 1]))) x == O.cell[c][i].x IN
                      /\ Clause(T.id, "number of correspondences", Len(x) = Len(e))
                      /\ \A k \in 1..Len(e) : Clause(T.id, "correspondence of another picture or feature", FiniteSeq(x[k][1]) /\ FiniteSeq(x[k][2]) /\ VNear(NumV(x[k][2]), e[k][2], tol) /\ \A d \in 1..2 : RNear(Num(x[k][1][d]), e[k][1][d], RParse("1e-9")))
                 ELSE Clause(T.id, "correspondences where the target was not found", Len(O.cell[c][i].x) = 0))
          /\ Accept(T.id) /\ ph' = "end" /\ UNCHANGED l
Next == Lost \/ Refused \/ Counted \/ Paired
Spec == Init /\ [][Next]_vars
=============================================================================
