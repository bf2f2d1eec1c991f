---------------------------- MODULE MarkerTrace -----------------------------
(* pictured -> found -> drawn: what a marker finder reads from a picture. *)
EXTENDS Marker, TraceIO
VARIABLES l, ph
vars == <<l, ph>>
T == Trace[l]
Read(t) == Strict([kind |-> t.kind, rows |-> t.rows, cols |-> t.cols, a |-> Num(t.a), b |-> Num(t.b), dict |-> t.dict, first |-> t.first])
Mk(m) == Strict([id |-> m.id, x |-> Num(m.x), y |-> Num(m.y), s |-> Num(m.s)])
Seen(k, mp) == Strict({T.in.shown[i].id : i \in {j \in 1..Len(T.in.shown) : InPicture(PxAll(k, mp, Corners(Mk(T.in.shown[j]))), T.in.w, T.in.h, 14)}})
Init == l \in 1..Len(Trace) /\ ph = "pictured"
Lost == ph = "pictured" /\ T.out.status # "ok" /\ Clause(T.id, "no answer: " \o T.out.status, FALSE) /\ UNCHANGED vars
Tol(t) == IF t.kind = "aruco" THEN RFrac(5, 2) ELSE RFrac(3, 2)
Found == /\ ph = "pictured" /\ T.out.status = "ok"
         /\ TRUE = (LET t == Read(T.in.t) k == NumV(T.in.intr) mp == Strict(PM(ReadPose(T.in.pose))) seen == Strict(Seen(k, mp)) want == Strict(Readable(t, seen))
              \* between a chessboard's squares the marker reader may miss a marker: it cannot be asked for more than it reads
              sure == Strict(IF t.kind = "aruco" THEN want ELSE Readable(t, seen \cap {T.out.read[i] : i \in 1..Len(T.out.read)})) o == T.out.find IN
              IF o.ok THEN
                /\ Clause(T.id, "a feature was found that is not visible or not part of the target", \A i \in 1..Len(o.x) : o.x[i].id \in want)
                /\ Clause(T.id, "a visible feature was missed", \A id \in sure : \E i \in 1..Len(o.x) : o.x[i].id = id)
                /\ \A i \in 1..Len(o.x) : LET ps == Points(t, o.x[i].id) IN
                     /\ Clause(T.id, "elements of a feature", Len(o.x[i].at) = Len(ps))
                     /\ \A n \in 1..Len(ps) : Clause(T.id, "place of a feature", NearPx(o.x[i].at[n], Px(k, mp, ps[n]), Tol(t)))
              ELSE Clause(T.id, "visible features were refused", sure = {}))
         /\ ph' = "found" /\ UNCHANGED l
Drawn == /\ ph = "found"
         /\ Clause(T.id, "finding changed the image", T.out.find_kept)
         /\ Clause(T.id, "drawing changed the image", T.out.draw_kept)
         /\ Clause(T.id, "finding again gave something else", T.out.again)
         /\ Clause(T.id, "drawing failed", T.out.draw_ok)
         /\ Clause(T.id, "the drawing does not show the features", T.out.marked)
         /\ Accept(T.id) /\ ph' = "end" /\ UNCHANGED l
Next == Lost \/ Found \/ Drawn
Spec == Init /\ [][Next]_vars
=============================================================================
