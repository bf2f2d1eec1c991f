-------------------------------- MODULE Hist ---------------------------------
(***************************************************************************)
(* Computations that share a process.  Every lane is a thread that makes   *)
(* the calls of its list one after the other; calls of different lanes     *)
(* overlap in any way.  There is nothing but the calls: no memory that     *)
(* outlives them.  So whatever a call answers when it is made alone, it    *)
(* answers always.                                                         *)
(*                                                                         *)
(* lanes  sequences of calls     at  how many calls a lane has finished    *)
(* busy   whether a lane is within a call                                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Idle(lanes) == [i \in 1..Len(lanes) |-> 0]
Free(lanes) == [i \in 1..Len(lanes) |-> FALSE]
CanBegin(lanes, at, busy, i) == ~busy[i] /\ at[i] < Len(lanes[i])
CanEnd(lanes, at, busy, i) == busy[i]
Current(lanes, at, i) == lanes[i][at[i] + 1]
Over(lanes, at) == \A i \in 1..Len(lanes) : at[i] = Len(lanes[i])
=============================================================================
