----------------------------- MODULE CorrSetGen ------------------------------
(***************************************************************************)
(* Cameras take pictures one after the other; in each the target is found  *)
(* wholly, partly, wrongly or not at all.                                  *)
(***************************************************************************)
EXTENDS Target, Draws
VARIABLES sid, phase, tgt, script, cams
vars == <<sid, phase, tgt, script, cams>>
Kind(s) == << "aruco", "charuco", "circle", "circle" >>[1 + (s % 4)]
DrawTarget(s) == LET kind == Kind(s) a == F(s, 4, 20, 400, 1000) IN
  Strict([kind |-> kind, rows |-> D(s, 1, 2, 4), cols |-> D(s, 2, 2, 4), a |-> a, b |-> IF kind = "circle" THEN RZero ELSE RMul(a, RFrac(1, 2)), dict |-> IF kind = "circle" THEN 0 ELSE 10, first |-> 0])
NumCams(s) == IF C(s, 10, 6) THEN 0 ELSE D(s, 11, 1, 4)
Images(s) == IF C(s, 15, 10) THEN D(s, 12, 6, 12) ELSE D(s, 12, 0, 5)
ImagesOf(s, c) == IF C(s, 13, 40) THEN D(s, 14 + c, 0, 5) ELSE Images(s)
Init == sid \in 1..N /\ phase = "start" /\ tgt = <<>> /\ script = <<>> /\ cams = <<>>
Choose == phase = "start" /\ tgt' = DrawTarget(sid) /\ phase' = "shoot" /\ UNCHANGED <<sid, script, cams>>
Spot(k) == << F(sid, k, 0, 12800, 10), F(sid, k + 1, 0, 9600, 10) >>
Elements == IF tgt.kind = "aruco" THEN 4 ELSE 1
Seen(k) == LET n == Count(tgt) p == Perm(St(sid), 30 + k, n)
               keep == IF tgt.kind = "circle" THEN (IF C(sid, 40 + k, 75) THEN n ELSE D(sid, 41 + k, 1, n)) ELSE D(sid, 42 + k, 1, n)
               f == [i \in 1..keep |-> [id |-> p[i] - 1, at |-> [e \in 1..Elements |-> Spot(50 + (100 * k) + (9 * i) + (2 * e))]]]
           IN IF C(sid, 45 + k, 8) THEN Append(f, [id |-> n + D(sid, 46 + k, 0, 3), at |-> [e \in 1..Elements |-> Spot(77 + k)]]) ELSE f
Shot(k) == CASE D(sid, 2000 + k, 0, 9) \in 0..1 -> [how |-> "throw", found |-> <<>>] [] D(sid, 2000 + k, 0, 9) = 2 -> [how |-> "none", found |-> <<>>] [] OTHER -> Strict([how |-> "seen", found |-> Seen(k)])
\* the camera whose turn it is
NewCam == /\ phase = "shoot" /\ Len(cams) < NumCams(sid) /\ (IF Len(cams) = 0 THEN TRUE ELSE Len(cams[Len(cams)]) = ImagesOf(sid, Len(cams)))
          /\ cams' = Append(cams, <<>>) /\ UNCHANGED <<sid, phase, tgt, script>>
Shoot == /\ phase = "shoot" /\ Len(cams) > 0 /\ Len(cams[Len(cams)]) < ImagesOf(sid, Len(cams))
         /\ script' = Append(script, Shot(Len(script)))
         /\ cams' = [cams EXCEPT ![Len(cams)] = Append(@, Len(script))] /\ UNCHANGED <<sid, phase, tgt>>
Handed == /\ phase = "shoot" /\ Len(cams) = NumCams(sid) /\ (IF Len(cams) = 0 THEN TRUE ELSE Len(cams[Len(cams)]) = ImagesOf(sid, Len(cams)))
          /\ phase' = "ready" /\ UNCHANGED <<sid, tgt, script, cams>>
Case == [id |-> "C20m-" \o ToString(sid), op |-> "corrset", t |-> [kind |-> tgt.kind, rows |-> tgt.rows, cols |-> tgt.cols, a |-> RDec(tgt.a), b |-> RDec(tgt.b), dict |-> tgt.dict, first |-> tgt.first],
   cams |-> cams, script |-> [k \in 1..Len(script) |-> [how |-> script[k].how, found |-> [i \in 1..Len(script[k].found) |-> [id |-> script[k].found[i].id, at |-> DecSeq(script[k].found[i].at)]]]]]
Emit == phase = "ready" /\ PrintT("CASE " \o ToJson(Case)) /\ phase' = "done" /\ UNCHANGED <<sid, tgt, script, cams>>
Next == Choose \/ NewCam \/ Shoot \/ Handed \/ Emit
Spec == Init /\ [][Next]_vars
\* every picture belongs to one camera
Told == \A i, k \in 1..Len(cams) : \A a \in 1..Len(cams[i]) : \A b \in 1..Len(cams[k]) : cams[i][a] = cams[k][b] => <<i, a>> = <<k, b>>
Shots == phase = "ready" => Len(script) = (LET RECURSIVE S(_) S(i) == IF i = 0 THEN 0 ELSE S(i - 1) + Len(cams[i]) IN S(Len(cams)))
=============================================================================
