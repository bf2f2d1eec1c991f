----------------------------- MODULE GridTrace ------------------------------
(* pictured -> found -> drawn: what the circle grid finder reads. *)
EXTENDS Grid, TraceIO
VARIABLES l, ph
vars == <<l, ph>>
T == Trace[l]
Tgt == LET t == T.in.t IN Strict([kind |-> t.kind, rows |-> t.rows, cols |-> t.cols, a |-> Num(t.a), b |-> RZero, dict |-> 0, first |-> 0])
Init == l \in 1..Len(Trace) /\ ph = "pictured"
Lost == ph = "pictured" /\ T.out.status # "ok" /\ Clause(T.id, "no answer: " \o T.out.status, FALSE) /\ UNCHANGED vars
Found == /\ ph = "pictured" /\ T.out.status = "ok"
         /\ TRUE = (LET t == Tgt k == NumV(T.in.intr) mp == Strict(PM(ReadPose(T.in.pose))) o == T.out.find IN
              IF o.ok THEN
                /\ Clause(T.id, "a grid that is not there was found", Complete(t, T.in.dots))
                /\ Clause(T.id, "not every circle once", Len(o.x) = Count(t) /\ {o.x[i].id : i \in 1..Len(o.x)} = Ids(t))
                /\ \A i \in 1..Len(o.x) : /\ Clause(T.id, "elements of a feature", Len(o.x[i].at) = 1)
                                          /\ Clause(T.id, "a circle is reported as another one", NearPx(o.x[i].at[1], Px(k, mp, Points(t, o.x[i].id)[1]), RInt(2)))
              ELSE \* a single row or column does not determine how the plane is seen
                   Clause(T.id, "a visible grid was refused", ~Complete(t, T.in.dots) \/ t.rows = 1 \/ t.cols = 1))
         /\ ph' = "found" /\ UNCHANGED l
Drawn == /\ ph = "found"
         /\ Clause(T.id, "finding changed the image", T.out.find_kept)
         /\ Clause(T.id, "drawing changed the image", T.out.draw_kept)
         /\ Clause(T.id, "finding again gave something else", T.out.again)
         /\ Clause(T.id, "drawing failed", T.out.draw_ok)
         /\ Accept(T.id) /\ ph' = "end" /\ UNCHANGED l
Next == Lost \/ Found \/ Drawn
Spec == Init /\ [][Next]_vars
=============================================================================
