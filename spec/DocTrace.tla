------------------------------ MODULE DocTrace ------------------------------
(* written -> read | refused, and value -> document -> value again *)
EXTENDS Doc, TraceIO
VARIABLES l, ph
vars == <<l, ph>>
T == Trace[l]
Ty == T.in.type
Init == l \in 1..Len(Trace) /\ ph = "written"
Lost == ph = "written" /\ T.out.status \notin {"ok", "throw"} /\ Clause(T.id, "did not return: " \o T.out.status, FALSE) /\ UNCHANGED vars
Refuse == /\ ph = "written" /\ T.out.status = "throw"
          /\ Clause(T.id, "a complete document was refused (" \o T.out.what \o ")", ~Valid(Ty, T.in.doc))
          /\ Accept(T.id) /\ ph' = "end" /\ UNCHANGED l
Read == /\ ph = "written" /\ T.out.status = "ok" /\ T.op = "read"
        /\ Clause(T.id, "an incomplete or wrong document was read as a value", Valid(Ty, T.in.doc))
        /\ TRUE = Clause(T.id, "the value is not the one in the document", Says(Ty, T.in.doc, T.out.val))
        /\ Accept(T.id) /\ ph' = "end" /\ UNCHANGED l
Cycle == /\ ph = "written" /\ T.out.status = "ok" /\ T.op = "cycle"
         /\ TRUE = (/\ Clause(T.id, "harness: value not built as given", Says(Ty, T.in.doc, T.out.val0))
                    /\ Clause(T.id, "what was written is not a document of its type", Valid(Ty, T.out.doc))
                    /\ Clause(T.id, "the document does not say what the value is", Says(Ty, T.out.doc, T.out.val0))
                    /\ \A i \in 1..Len(T.out.vals) : Clause(T.id, "not the value that was saved", Same(Ty, T.out.val0, T.out.vals[i]))
                    /\ Clause(T.id, "the value read back does not compare equal", \A i \in 1..Len(T.out.equal) : T.out.equal[i]))
         /\ Accept(T.id) /\ ph' = "end" /\ UNCHANGED l
Next == Lost \/ Refuse \/ Read \/ Cycle
Spec == Init /\ [][Next]_vars
=============================================================================
