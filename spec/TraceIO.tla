------------------------------ MODULE TraceIO ------------------------------
(***************************************************************************)
(* Reading recorded behaviours of the implementation.  A trace file holds  *)
(* one recorded call per line: the input the specification's generator     *)
(* chose and everything the implementation let us observe.  A trace        *)
(* specification walks each recorded call through the states of its model  *)
(* and prints ACCEPT when the last one is reached; Clause names the part   *)
(* of the model a recorded call contradicts.                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANT TRACEFILE
Trace == ndJsonDeserialize(TRACEFILE)
Clause(id, name, cond) == IF cond THEN TRUE ELSE PrintT("REJECT " \o id \o " " \o name) /\ FALSE
Accept(id) == PrintT("ACCEPT " \o id)
=============================================================================
