------------------------------- MODULE HistGen -------------------------------
(***************************************************************************)
(* Histories over a pool of POOL calls: single threads with many calls,    *)
(* many threads with a few, the same call again and again or at the same   *)
(* time, calls on the same object.  TLC explores one schedule per history  *)
(* (the real one is the operating system's); SCHED = TRUE explores them    *)
(* all.                                                                    *)
(***************************************************************************)
EXTENDS Hist, Draws
CONSTANTS POOL, SCHED, KINDS
VARIABLES sid, lanes, at, busy, said, phase
vars == <<sid, lanes, at, busy, said, phase>>
\* the pool is ordered by kind of call: call n is of kind (n % KINDS)
OfKind(k, x) == ((x % (POOL \div KINDS)) * KINDS) + (k % KINDS)
LanesOf(s) == IF SCHED THEN D(s, 1, 1, 3) ELSE PickD(s, 1, <<1, 1, 2, 3, 4, 4, 8>>)
LengthOf(s) == IF SCHED THEN D(s, 2, 1, 2) ELSE IF LanesOf(s) = 1 THEN D(s, 2, 4, 10) ELSE D(s, 2, 2, 4)
\* how the calls of a history relate: all of any kind, all of one kind, all the same, or two calls in turn
Style(s) == PickD(s, 3, <<"any", "kind", "kind", "same", "two">>)
CallOf(s, i, k) ==
  LET x == D(s, 10 + (20 * i) + k, 0, POOL - 1) kind == D(s, 4, 0, KINDS - 1) IN
  CASE Style(s) = "any" -> x
    [] Style(s) = "kind" -> OfKind(kind, x)
    [] Style(s) = "same" -> OfKind(kind, D(s, 5, 0, POOL - 1))
    [] OTHER -> OfKind(kind, D(s, 5 + ((i + k) % 2), 0, POOL - 1))
Init == /\ sid \in 1..N /\ lanes = [i \in 1..LanesOf(sid) |-> [k \in 1..LengthOf(sid) |-> CallOf(sid, i, k)]]
        /\ at = Idle(lanes) /\ busy = Free(lanes) /\ said = {} /\ phase = "run"
First(S) == CHOOSE i \in S : \A k \in S : i <= k
Turn(S) == IF SCHED THEN S ELSE {First(S)}
\* a call begins: nothing but its own lane changes
Begin == LET S == {i \in 1..Len(lanes) : CanBegin(lanes, at, busy, i)} IN
  /\ phase = "run" /\ S # {} /\ \E i \in Turn(S) : busy' = [busy EXCEPT ![i] = TRUE] /\ UNCHANGED <<sid, lanes, at, said, phase>>
\* a call ends; its answer is a function of the call
Answer(call) == <<"answer of", call>>
End == LET S == {i \in 1..Len(lanes) : CanEnd(lanes, at, busy, i)} IN
  /\ phase = "run" /\ S # {} /\ (SCHED \/ \A i \in 1..Len(lanes) : ~CanBegin(lanes, at, busy, i))
  /\ \E i \in Turn(S) : /\ busy' = [busy EXCEPT ![i] = FALSE] /\ at' = [at EXCEPT ![i] = @ + 1]
                        /\ said' = said \cup { << Current(lanes, at, i), Answer(Current(lanes, at, i)) >> }
  /\ UNCHANGED <<sid, lanes, phase>>
Case == [id |-> "C21-" \o ToString(sid), op |-> "history", share |-> C(sid, 6, 70), lanes |-> [i \in 1..Len(lanes) |-> [k \in 1..Len(lanes[i]) |-> [n |-> lanes[i][k]]]]]
Emit == phase = "run" /\ Over(lanes, at) /\ PrintT("CASE " \o ToJson(Case)) /\ phase' = "done" /\ UNCHANGED <<sid, lanes, at, busy, said>>
Next == Begin \/ End \/ Emit
Spec == Init /\ [][Next]_vars
\* ---- what the model promises ----
\* no call has two answers
OneAnswer == \A a, b \in said : a[1] = b[1] => a = b
\* every call that ended was answered, and nothing else was
Answered == {a[1] : a \in said} = UNION {{lanes[i][k] : k \in 1..at[i]} : i \in 1..Len(lanes)}
\* lanes do not stop each other
Alive == phase = "run" => ENABLED Next
=============================================================================
