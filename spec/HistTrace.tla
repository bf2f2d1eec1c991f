------------------------------ MODULE HistTrace ------------------------------
(***************************************************************************)
(* The ends of the calls in the order in which they happened; what a call  *)
(* answers alone is known from a process of its own (was).  Both are lists *)
(* of places and what stands there.  The answers are the same if the same  *)
(* stands everywhere; numbers may differ by rounding (the order in which   *)
(* Ceres adds up depends on where its blocks happen to be in memory).      *)
(***************************************************************************)
EXTENDS Hist, Rat, TraceIO
Equal(a, b, slack) == a = b \/ RLe(RAbs(RSub(RParse(a), RParse(b))), RAdd(RMul(slack, RParse("1e-3")), RMul(slack, RAbs(RParse(a)))))
\* the many parameters of a kinematic calibration let rounding decide in which step it stops
Slack(op) == RParse(IF op = "kincal" THEN "1e-3" ELSE "1e-6")
Same(e, op) == e.same \/ (Len(e.got) = Len(e.was) /\ \A k \in 1..Len(e.got) : /\ e.got[k].p = e.was[k].p /\ e.got[k].k = e.was[k].k
                                                                         /\ IF e.got[k].k = "n" THEN Equal(e.was[k].v, e.got[k].v, Slack(op)) ELSE e.got[k].v = e.was[k].v)
VARIABLES l, n, at
vars == <<l, n, at>>
T == Trace[l]
Lanes == T.in.lanes
Ends == T.out.ends
Init == l \in 1..Len(Trace) /\ n = 0 /\ at = Idle(Trace[l].in.lanes)
Lost == n = 0 /\ T.out.status # "ok" /\ Clause(T.id, "no answer when calls share a process: " \o T.out.status, FALSE) /\ UNCHANGED vars
E == Ends[n + 1]
End == /\ T.out.status = "ok" /\ n < Len(Ends)
       /\ Clause(T.id, "a lane went on after its last call", at[E.lane] < Len(Lanes[E.lane]))
       /\ TRUE = (LET c == Current(Lanes, at, E.lane) IN
            /\ Clause(T.id, "a lane made another call than the next one", c.n = E.n)
            /\ Clause(T.id, "call " \o ToString(c.n) \o " (" \o c.op \o ") answers something else than alone", Same(E, c.op)))
       /\ at' = [at EXCEPT ![E.lane] = @ + 1] /\ n' = n + 1 /\ UNCHANGED l
Done == /\ T.out.status = "ok" /\ n = Len(Ends) /\ Clause(T.id, "calls were not answered", Over(Lanes, at)) /\ Accept(T.id) /\ n' = n + 1 /\ UNCHANGED <<l, at>>
Next == Lost \/ End \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
