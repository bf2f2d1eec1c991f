---------------------------- MODULE CollectTrace -----------------------------
(* One action per event of a recorded session with the data collector. *)
EXTENDS Collect, TraceIO
VARIABLES l, n, st
vars == <<l, n, st>>
T == Trace[l]
ReadTf(t) == Strict([there |-> t.there, after |-> t.after, pose |-> ReadPose(t.pose)])
Init == l \in 1..Len(Trace) /\ n = 0 /\ st = [run |-> "given"]
Given == st.run = "given" /\ st' = Fresh(ReadTf(T.in.start)) /\ UNCHANGED <<l, n>>
Lost == st.run = "starting" /\ T.out.status # "ok" /\ Clause(T.id, "no answer: " \o T.out.status, FALSE) /\ UNCHANGED vars
Start == /\ st.run = "starting" /\ T.out.status = "ok"
         /\ TRUE = (LET s == Started(st, T.in.ready) IN
                    /\ Clause(T.id, "the collector did not start", s.run = "running" => T.out.spun)
                    /\ Clause(T.id, "the collector started without all it needs", s.run = "refused" => ~T.out.spun /\ T.out.rc # 0))
         /\ st' = Started(st, T.in.ready) /\ UNCHANGED <<l, n>>
E == T.in.events[n + 1]
O == T.out.events[n + 1]
At == " in step " \o ToString(n + 1)
More == st.run = "running" /\ n < Len(T.in.events)
Alive == Clause(T.id, "the collector stopped" \o At, n < Len(T.out.events) /\ ~O.died)
OnImage == /\ More /\ E.do = "image" /\ Alive
           /\ Clause(T.id, "an image was not answered by showing it once" \o At, Len(O.pubs) = Len(Shown(E, T.in.topic)))
           /\ \A k \in 1..Len(O.pubs) :
                /\ Clause(T.id, "shown on another topic" \o At, O.pubs[k].topic = T.in.topic \o "_observer")
                /\ Clause(T.id, "not the image that arrived is shown" \o At, O.pubs[k].code = Shown(E, T.in.topic)[k].code)
                /\ Clause(T.id, "the target is drawn where none was found, or is not" \o At, O.pubs[k].drawn = Shown(E, T.in.topic)[k].drawn)
                /\ Clause(T.id, "another header than that of the image" \o At, O.pubs[k].header)
           /\ Clause(T.id, "the received message was changed" \o At, O.kept)
           /\ st' = Strict(Image(st, E, T.in.topic)) /\ n' = n + 1 /\ UNCHANGED l
OnTf == More /\ E.do = "tf" /\ Alive /\ st' = Strict([st EXCEPT !.tf = ReadTf(E.tf)]) /\ n' = n + 1 /\ UNCHANGED l
OnBlock == More /\ E.do \in {"block", "free"} /\ Alive /\ st' = Strict(IF E.do = "block" THEN Block(st, E.where) ELSE Free(st, E.where)) /\ n' = n + 1 /\ UNCHANGED l
OnCollect == /\ More /\ E.do = "collect" /\ Alive
             /\ Clause(T.id, "there is no request to collect" \o At, O.ok \in BOOLEAN)
             /\ Clause(T.id, (IF CanCollect(st) THEN "a pair was not collected" ELSE "collected without image or transform") \o At, O.ok = CanCollect(st))
             /\ st' = Strict(Collected(st)) /\ n' = n + 1 /\ UNCHANGED l
SamePair(a, b) == a[1] = b[1] /\ MPNear(a[2], Strict(PM(b[2])), RParse("1e-12"), RMul(RParse("1e-13"), RAdd(ROne, RSqrt(VSq(b[2].t)))))
OnSave == /\ More /\ E.do = "save" /\ Alive
          /\ Clause(T.id, "there is no request to save" \o At, O.ok \in BOOLEAN)
          /\ Clause(T.id, "the collected pairs were not saved" \o At, MayFail(st) \/ O.ok)
          /\ Clause(T.id, "a save that failed was reported as success" \o At, O.ok => MaySave(st))
          /\ O.ok =>
             /\ Clause(T.id, "a saved data set cannot be loaded" \o At, O.loaded /\ Len(O.images) = Len(O.poses) /\ \A k \in 1..Len(O.poses) : FiniteSeq(O.poses[k]))
             /\ Clause(T.id, "the saved pairs are not those collected" \o At,
                       Len(O.images) = Len(st.recs) /\ \A k \in 1..Len(O.images) : SamePair(<<O.images[k], ReadMPose(O.poses[k])>>, st.recs[k]))
          /\ st' = st /\ n' = n + 1 /\ UNCHANGED l
End == /\ (st.run = "refused" \/ (st.run = "running" /\ n = Len(T.in.events)))
       /\ Clause(T.id, "the collector ended with an error", st.run = "running" => T.out.rc = 0)
       /\ Accept(T.id) /\ st' = [st EXCEPT !.run = "over"] /\ UNCHANGED <<l, n>>
Next == Given \/ Lost \/ Start \/ OnImage \/ OnTf \/ OnBlock \/ OnCollect \/ OnSave \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
