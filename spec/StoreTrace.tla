----------------------------- MODULE StoreTrace ------------------------------
(* One action per recorded step of the directory's history. *)
EXTENDS Store, TraceIO
VARIABLES l, n, st
vars == <<l, n, st>>
T == Trace[l]
Steps == T.in.steps
Init == l \in 1..Len(Trace) /\ n = 0 /\ st = Empty
Lost == n = 0 /\ T.out.status # "ok" /\ Clause(T.id, "no answer: " \o T.out.status, FALSE) /\ UNCHANGED vars
Set(s) == Strict([images |-> s.images, poses |-> [k \in 1..Len(s.poses) |-> ReadPose(s.poses[k])]])
S == Steps[n + 1]
O == T.out.steps[n + 1]
At == " in step " \o ToString(n + 1)
More == T.out.status = "ok" /\ n < Len(Steps)
Save == /\ More /\ S.do = "save" /\ S.room = 0
        /\ TRUE = (Clause(T.id, (IF CanSave(st, Set(S)) THEN "a data set was not saved" ELSE "a data set that cannot be saved was reported as saved") \o At, \/ O.ok = CanSave(st, Set(S))
                                \* (an empty set needs no directories of pictures and poses)
                                \/ (Len(Set(S).images) + Len(Set(S).poses) = 0 /\ st.nodir # "")))
        /\ st' = Strict(Saved(st, Set(S))) /\ n' = n + 1 /\ UNCHANGED l
\* where there is no room for large files a save may fail; it says so
Squeezed == /\ More /\ S.do = "save" /\ S.room > 0
            /\ TRUE = Clause(T.id, "a data set that cannot be saved was reported as saved" \o At, CanSave(st, Set(S)) \/ ~O.ok \/ (Len(Set(S).images) + Len(Set(S).poses) = 0 /\ st.nodir # ""))
            /\ st' = Strict(SavedIf(st, Set(S), O.ok /\ CanSave(st, Set(S)))) /\ n' = n + 1 /\ UNCHANGED l
ReadDamage == Strict([part |-> S.part, n |-> S.n, how |-> S.how, v |-> IF S.how = "ok" THEN ReadPose(S.v) ELSE S.v])
Hurt == /\ More /\ S.do \in {"remove", "write", "mkdir"}
        /\ st' = Strict(Damage(st, ReadDamage)) /\ n' = n + 1 /\ UNCHANGED l
\* a loaded pair: number of the picture and a matrix
SamePair(a, b) == a[1] = b[1] /\ MPNear(a[2], Strict(PM(b[2])), RParse("1e-13"), RMul(RParse("1e-15"), RAdd(ROne, RSqrt(VSq(b[2].t)))))
Load == /\ More /\ S.do = "load"
        /\ TRUE = (IF O.ok
             THEN /\ Clause(T.id, "numbers of pictures and poses differ" \o At, Len(O.images) = Len(O.poses))
                  /\ \A k \in 1..Len(O.poses) : Clause(T.id, "a loaded pose is not a number" \o At, FiniteSeq(O.poses[k]))
                  /\ LET got == Strict([k \in 1..Len(O.images) |-> << O.images[k], ReadMPose(O.poses[k]) >>]) IN
                     Clause(T.id, "loaded something else than was stored" \o At, MayLoad(st, got, SamePair))
             ELSE Clause(T.id, "refused to load what was saved" \o At, ~MustLoad(st)))
        /\ n' = n + 1 /\ UNCHANGED <<l, st>>
End == T.out.status = "ok" /\ n = Len(Steps) /\ Accept(T.id) /\ n' = n + 1 /\ UNCHANGED <<l, st>>
Next == Lost \/ Save \/ Squeezed \/ Hurt \/ Load \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
