----------------------------- MODULE TargetGen ------------------------------
(***************************************************************************)
(* A target is chosen, features of it are found one after the other in any *)
(* order, and the found features are turned into correspondences.          *)
(***************************************************************************)
EXTENDS Target, Draws
VARIABLES sid, phase, tgt, order, found
vars == <<sid, phase, tgt, order, found>>
Kind(s) == << "aruco", "charuco", "circle" >>[1 + (s % 3)]
Dim(s, k) == F(s, k, 1, 400, PickD(s, k + 1, <<1000, 1000, 4096, 100>>))
DictSize == << 50, 100, 250, 1000, 50, 100, 250, 1000, 50, 100, 250, 1000, 50, 100, 250, 1000 >>
RECURSIVE Fit(_, _)
Fit(n, cap) == IF n <= cap THEN n ELSE Fit(n \div 2, cap)
DrawTarget(s) ==
  LET kind == Kind(s) r == D(s, 1, 1, 9) c == D(s, 2, 1, 9) d == D(s, 3, 0, 15)
      rows == IF kind = "charuco" THEN r + 1 ELSE r cols == IF kind = "charuco" THEN c + 1 ELSE c
      a == Dim(s, 4)
  IN Strict([kind |-> kind, rows |-> IF C(s, 6, 5) /\ kind # "charuco" THEN D(s, 7, 10, 25) ELSE rows, cols |-> cols,
      a |-> a, b |-> CASE kind = "aruco" -> Dim(s, 8) [] kind = "charuco" -> RMul(a, RFrac(D(s, 10, 1, 9), 10)) [] OTHER -> RZero,
      dict |-> IF kind = "circle" THEN 0 ELSE (d \div 4) * 4 + 3, first |-> IF kind = "aruco" /\ C(s, 11, 30) THEN D(s, 12, 1, 200) ELSE 0])
Init == sid \in 1..N /\ phase = "start" /\ tgt = <<>> /\ order = <<>> /\ found = <<>>
\* the variants: everything, a part, nothing, a foreign feature, too many elements, no element, one missing
Variant(s) == PickD(s, 20, << "all", "part", "part", "part", "none", "foreign", "extra", "empty", "short", "all" >>)
Choose == /\ phase = "start" /\ tgt' = DrawTarget(sid)
          /\ order' = LET n == Count(tgt') keep == CASE Variant(sid) \in {"all"} -> n [] Variant(sid) = "none" -> 0 [] tgt'.kind = "circle" /\ Variant(sid) \notin {"part", "short"} -> n
                                 [] Variant(sid) = "short" -> IF n > 1 THEN n - 1 ELSE n [] OTHER -> D(sid, 21, 1, n)
                          p == Perm(St(sid), 30, n) IN Strict([i \in 1..keep |-> First(tgt') + p[i] - 1])
          /\ phase' = "find" /\ UNCHANGED <<sid, found>>
Spot(i, k) == << F(sid, 40 + 9*i + 2*k, 0, 12800, PickD(sid, 41, <<10, 16>>)), F(sid, 41 + 9*i + 2*k, 0, 9600, 10) >>
Elements(id) == CASE tgt.kind = "aruco" -> (IF C(sid, 600 + id, 92) THEN 4 ELSE D(sid, 610 + id, 1, 4)) [] OTHER -> 1
Find == /\ phase = "find" /\ Len(found) < Len(order)
        /\ found' = Append(found, LET i == Len(found) + 1 id == order[i] IN Strict([id |-> id, at |-> [k \in 1..Elements(id) |-> Spot(i, k)]]))
        /\ UNCHANGED <<sid, phase, tgt, order>>
Spoil(f) == LET n == Count(tgt) fi == First(tgt) v == Variant(sid)
   far == PickD(sid, 22, << fi + n, fi + n + 1, fi + n + 17, IF fi > 0 THEN fi - 1 ELSE fi + n, 100000 >>) IN
  CASE v = "foreign" -> Append(f, [id |-> far, at |-> [k \in 1..(IF tgt.kind = "aruco" THEN 4 ELSE 1) |-> Spot(77, k)]])
    [] v = "extra" /\ tgt.kind = "aruco" /\ Len(f) > 0 -> [f EXCEPT ![D(sid, 23, 1, Len(f))].at = @ \o << Spot(78, 0), Spot(78, 1), Spot(78, 2), Spot(78, 3) >>]
    [] v = "empty" /\ tgt.kind # "aruco" /\ Len(f) > 0 -> [f EXCEPT ![D(sid, 23, 1, Len(f))].at = <<>>]
    [] OTHER -> f
Found == phase = "find" /\ Len(found) = Len(order) /\ found' = Spoil(found) /\ phase' = "ready" /\ UNCHANGED <<sid, tgt, order>>
\* another target: the same, or one that differs in one respect
Other(s) == LET k == D(s, 24, 0, 6) m == RFrac(D(s, 25, 3, 300), 1000) IN
  CASE k = 0 -> [tgt EXCEPT !.rows = @ + D(s, 26, 1, 3)] [] k = 1 -> [tgt EXCEPT !.cols = @ + D(s, 26, 1, 3)]
    [] k = 2 -> [tgt EXCEPT !.a = RMul(@, RAdd(ROne, m))] [] k = 3 /\ tgt.kind = "aruco" -> [tgt EXCEPT !.b = RMul(@, RAdd(ROne, m))]
    [] k = 3 /\ tgt.kind = "charuco" -> [tgt EXCEPT !.b = RMul(@, RFrac(9, 10))]
    [] k = 4 /\ tgt.kind # "circle" -> [tgt EXCEPT !.dict = (@ + 4) % 16]
    [] k = 5 /\ tgt.kind = "aruco" -> [tgt EXCEPT !.first = @ + 1]
    [] k = 5 /\ tgt.kind # "aruco" -> [tgt EXCEPT !.rows = tgt.cols, !.cols = tgt.rows]
    [] OTHER -> tgt
TJson(t) == [kind |-> t.kind, rows |-> t.rows, cols |-> t.cols, a |-> RDec(t.a), b |-> RDec(t.b), dict |-> t.dict, first |-> t.first]
Case == [id |-> "C16-" \o ToString(sid), op |-> "target", t |-> TJson(tgt), other |-> TJson(Other(sid)),
         found |-> [i \in 1..Len(found) |-> [id |-> found[i].id, at |-> [k \in 1..Len(found[i].at) |-> Dec(found[i].at[k])]]]]
Emit == phase = "ready" /\ PrintT("CASE " \o ToJson(Case)) /\ phase' = "done" /\ UNCHANGED <<sid, tgt, order, found>>
Next == Choose \/ Find \/ Found \/ Emit
Spec == Init /\ [][Next]_vars
\* ---- what the model promises ----
FoundSet == {found[i] : i \in 1..Len(found)}
All == {<<id, Points(tgt, id)>> : id \in Ids(tgt)}
\* no two features of a target coincide
Distinct == phase = "ready" => LET s == [id \in Ids(tgt) |-> Points(tgt, id)] IN Cardinality({s[id][1] : id \in Ids(tgt)}) = Count(tgt)
\* the pairs are the same whatever the order in which the features were found, and one per element
OrderFree == phase = "ready" /\ Fits(tgt, FoundSet) =>
   LET ps == Pairs(tgt, FoundSet) IN /\ Len(ps) = (LET RECURSIVE S(_) S(i) == IF i = 0 THEN 0 ELSE S(i - 1) + Len(found[i].at) IN S(Len(found)))
                                      /\ \A i \in 1..Len(found) : \A k \in 1..Len(found[i].at) : \E n \in 1..Len(ps) : ps[n] = << found[i].at[k], Points(tgt, found[i].id)[k] >>
\* a spoiled set fits nothing
Spoiled == phase = "ready" /\ Variant(sid) = "foreign" => ~Fits(tgt, FoundSet)
\* neighbours are one pitch apart
Pitch == phase = "ready" => LET p == IF tgt.kind = "aruco" THEN RAdd(tgt.a, tgt.b) ELSE tgt.a IN
   \A id \in Ids(tgt) : ColOf(tgt, id) > 0 => VSub(Points(tgt, id)[1], Points(tgt, id - 1)[1]) = << p, RZero, RZero >>
=============================================================================
