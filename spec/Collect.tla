------------------------------- MODULE Collect -------------------------------
(***************************************************************************)
(* The data collector: it listens to one image topic and one transform and *)
(* answers two requests.                                                   *)
(*                                                                         *)
(* st: run     "starting" | "running" | "refused"                          *)
(*     last    the last image that could be read (0: none yet)             *)
(*     tf      [there, after, pose]: the transform, or after how many      *)
(*             seconds of waiting it becomes available (negative: never)   *)
(*     recs    what was collected, <<image, pose>>, in order               *)
(*     blocked what stands in the way of a save: parts of the directory    *)
(***************************************************************************)
EXTENDS Geom, FiniteSets
Fresh(tf) == [run |-> "starting", last |-> 0, tf |-> tf, recs |-> <<>>, blocked |-> {}]
\* the collector waits a moment for a transform that is on its way
Available(tf) == tf.there \/ tf.after \in 0..1
Started(st, ready) == [st EXCEPT !.run = IF ready /\ Available(st.tf) THEN "running" ELSE "refused"]
\* ---- images: [code, topic, readable, found] ----
Heard(e, topic) == e.topic = topic
Image(st, e, topic) == IF Heard(e, topic) /\ e.readable THEN [st EXCEPT !.last = e.code] ELSE st
\* what is shown for an image: nothing, or the image, drawn upon if its target was found
Shown(e, topic) == IF Heard(e, topic) /\ e.readable THEN << [code |-> e.code, drawn |-> e.found] >> ELSE <<>>
\* ---- requests ----
CanCollect(st) == Available(st.tf) /\ st.last # 0
Collected(st) == IF CanCollect(st) THEN [st EXCEPT !.recs = Append(@, <<st.last, st.tf.pose>>)] ELSE st
CanSave(st) == st.blocked = {}
\* nothing need be written into the directories of an empty data set
MayFail(st) == ~CanSave(st)
MaySave(st) == CanSave(st) \/ (st.recs = <<>> /\ st.blocked = {"images"})
\* ---- the directory: whoever takes it away takes its parts along ----
Block(st, where) == [st EXCEPT !.blocked = IF where = "all" THEN {"all"} ELSE IF "all" \in @ THEN @ ELSE @ \cup {where}]
Free(st, where) == [st EXCEPT !.blocked = IF where = "all" THEN {} ELSE @ \ {where}]
=============================================================================
