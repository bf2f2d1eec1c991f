----------------------------- MODULE CollectGen ------------------------------
(***************************************************************************)
(* A session with the data collector: it is started, well or badly         *)
(* configured; images arrive, readable or not, with and without a target;  *)
(* the robot moves, its transform is lost and found again; the user        *)
(* collects and saves, and the directory may be in the way.                *)
(***************************************************************************)
EXTENDS Collect, Draws
VARIABLES sid, st, events, seen
vars == <<sid, st, events, seen>>
Steps(s) == D(s, 1, 4, 16)
APose(k) == Pose(DrawQ(sid, k), V3(sid, k + 10, 40, PickD(sid, k + 14, <<7, 20, 1000>>)))
Whys == <<"lookup", "connect", "extrapolate", "time">>
Tf(k) == LET u == D(sid, k, 0, 9) IN
   Strict([there |-> u < 6, after |-> CASE u = 6 -> 0 [] u = 7 -> 1 [] OTHER -> -1, pose |-> APose(k + 1), why |-> PickD(sid, k + 20, Whys)])
\* ---- how it is started ----
Flaw(s) == IF D(s, 2, 0, 9) > 0 THEN "" ELSE PickD(s, 3, <<"base_frame", "tool_frame", "image_topic", "save_dir", "target_finder", "type", "config", "noconfig">>)
Ready == Flaw(sid) = ""
StartTf == IF C(sid, 4, 85) THEN Strict([Tf(10) EXCEPT !.there = TRUE]) ELSE Tf(10)
Topic == PickD(sid, 5, <<"camera/image", "image_raw">>)
Slash == IF C(sid, 6, 30) THEN "/" ELSE ""
Txt(x) == [t |-> "s", v |-> x]
Finder == [t |-> "m", v |-> << <<"type", Txt(IF Flaw(sid) = "type" THEN "harness::Nobody" ELSE "harness::ScriptedFinder")>> >>
             \o (IF Flaw(sid) = "noconfig" THEN <<>> ELSE << <<"size", [t |-> "i", v |-> IF Flaw(sid) = "config" THEN 0 ELSE D(sid, 7, 1, 9)]>> >>)]
Params == SelectSeq(<< <<"base_frame", Txt("base_link")>>, <<"tool_frame", Txt("tool0")>>, <<"image_topic", Txt(Slash \o Topic)>>, <<"save_dir", Txt("d")>>, <<"target_finder", Finder>> >>,
                    LAMBDA p : p[1] # Flaw(sid))
Init == sid \in 1..N /\ st = Fresh(StartTf) /\ events = <<>> /\ seen = <<>>
Start == st.run = "starting" /\ st' = Started(st, Ready) /\ UNCHANGED <<sid, events, seen>>
\* ---- what happens: the kth event is drawn from the draws 100 * k and on ----
K == 100 * (Len(events) + 1)
Kind == IF Len(events) = 0 THEN PickD(sid, 8, <<"image", "image", "image", "collect", "save", "tf">>)
        ELSE PickD(sid, K, <<"image", "image", "image", "image", "collect", "collect", "collect", "tf", "tf", "save", "block", "free">>)
More == st.run = "running" /\ Len(events) < Steps(sid)
Encs == <<"bgr8", "bgr8", "rgb8", "mono8", "mono16">>
Bad == IF C(sid, K + 2, 80) THEN "" ELSE PickD(sid, K + 3, <<"encoding", "depth", "short", "step", "odd">>)
Enc == IF Bad = "odd" THEN "mono16" ELSE PickD(sid, K + 1, Encs)
Detect == PickD(sid, K + 4, <<"found", "found", "found", "none", "cv", "logic">>)
\* rows may be padded; 16 bit rows by whole values only
Pad == IF Bad = "odd" THEN 2 * D(sid, K + 9, 0, 2) + 1 ELSE IF Bad = "" /\ C(sid, K + 8, 30) THEN 2 * D(sid, K + 9, 1, 3) ELSE 0
NewImage == LET enc == Enc IN
   [code |-> Len(events) + 1 + (16 * D(sid, K + 5, 0, 900)), w |-> D(sid, K + 6, 3, 9), h |-> D(sid, K + 7, 3, 9), gray |-> enc \in {"mono8", "mono16"}, detect |-> Detect]
OnImage == /\ More /\ Kind = "image"
           /\ LET p == NewImage
                  e == [do |-> "image", pic |-> p, enc |-> Enc, bad |-> Bad, pad |-> Pad,
                        code |-> p.code, topic |-> IF C(sid, K + 10, 6) THEN "elsewhere" ELSE Topic, readable |-> Bad = "", found |-> p.detect = "found"]
              IN /\ st' = Strict(Image(st, e, Topic)) /\ events' = Append(events, e) /\ seen' = Append(seen, e)
           /\ UNCHANGED sid
OnTf == /\ More /\ Kind = "tf"
        /\ LET t == Tf(K + 20) IN st' = Strict([st EXCEPT !.tf = t]) /\ events' = Append(events, [do |-> "tf", tf |-> [t EXCEPT !.pose = DecPose(@)]])
        /\ UNCHANGED <<sid, seen>>
OnCollect == More /\ Kind = "collect" /\ st' = Strict(Collected(st)) /\ events' = Append(events, [do |-> "collect"]) /\ UNCHANGED <<sid, seen>>
OnSave == More /\ Kind = "save" /\ st' = st /\ events' = Append(events, [do |-> "save"]) /\ UNCHANGED <<sid, seen>>
Where == PickD(sid, K + 30, <<"images", "index", "all">>)
OnBlock == /\ More /\ Kind \in {"block", "free"}
           /\ (IF Kind = "block" /\ (st.blocked = {} \/ Where = "all")
               THEN st' = Strict(Block(st, Where)) /\ events' = Append(events, [do |-> "block", where |-> Where])
               ELSE st' = Strict(Free(st, "all")) /\ events' = Append(events, [do |-> "free", where |-> "all"]))
           /\ UNCHANGED <<sid, seen>>
\* in the end it is saved
Done == Len(events) = Steps(sid) /\ st.run = "running"
Case == [id |-> "C24-" \o ToString(sid), op |-> "collect", ready |-> Ready, params |-> Params, base |-> "base_link", tool |-> "tool0", dir |-> "d", topic |-> Topic,
         start |-> [StartTf EXCEPT !.pose = DecPose(@)], pictures |-> [k \in 1..Len(seen) |-> seen[k].pic], events |-> Append(events, [do |-> "save"])]
Emit == (Done \/ st.run = "refused") /\ PrintT("CASE " \o ToJson(Case)) /\ st' = [st EXCEPT !.run = "over"] /\ UNCHANGED <<sid, events, seen>>
Next == Start \/ OnImage \/ OnTf \/ OnCollect \/ OnSave \/ OnBlock \/ Emit
Spec == Init /\ [][Next]_vars
\* ---- what the model promises ----
Codes == [k \in 1..Len(seen) |-> seen[k].code]
At(code) == CHOOSE k \in 1..Len(seen) : seen[k].code = code
\* every record is of an image that arrived and could be read, in the order of arrival, and there is one per request that was granted
OnlyReceived == \A r \in 1..Len(st.recs) : \E k \in 1..Len(seen) : seen[k].code = st.recs[r][1] /\ seen[k].readable /\ seen[k].topic = Topic
InOrder == \A r \in 1..(Len(st.recs) - 1) : At(st.recs[r][1]) <= At(st.recs[r + 1][1])
PerRequest == Len(st.recs) <= Cardinality({k \in 1..Len(events) : events[k].do = "collect"})
\* a request is granted unless the transform is away or no image came
Granted == st.run = "running" => (CanCollect(st) <=> Available(st.tf) /\ \E k \in 1..Len(seen) : seen[k].readable /\ seen[k].topic = Topic)
NothingBefore == st.run \in {"starting", "refused"} => st.recs = <<>> /\ st.last = 0
=============================================================================
