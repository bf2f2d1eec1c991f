----------------------------- MODULE BlobTrace ------------------------------
(* shown -> swept threshold by threshold -> compared: a recorded detection. *)
EXTENDS Blob, TraceIO
VARIABLES l, ph, at, seen
vars == <<l, ph, at, seen>>
T == Trace[l]
Num(x) == RParse(x)
Shape(j) == [kind |-> j.kind, x |-> Num(j.x), y |-> Num(j.y), a |-> Num(j.a), b |-> Num(j.b), g |-> j.g, w |-> Num(j.w), cr |-> Num(j.cr), cg |-> j.cg]
Lim(j) == [on |-> j.on, min |-> Num(j.min), max |-> Num(j.max)]
Par == LET p == T.in.p IN Strict([n |-> p.n, lo |-> Num(p.lo), hi |-> Num(p.hi), rep |-> p.rep, rad |-> Num(p.rad), err |-> Num(p.err), color |-> p.color, want |-> p.want,
         area |-> Lim(p.area), circ |-> Lim(p.circ), inert |-> Lim(p.inert), conv |-> Lim(p.conv)])
Os == Strict(Blobs(T.in.bg, [j \in 1..Len(T.in.shapes) |-> Shape(T.in.shapes[j])]))
Init == l \in 1..Len(Trace) /\ ph = "shown" /\ at = 0 /\ seen = <<>>
Lost == ph = "shown" /\ T.out.status # "ok" /\ Clause(T.id, "no answer: " \o T.out.status, FALSE) /\ UNCHANGED vars
Refused == /\ ph = "shown" /\ T.out.status = "ok" /\ ~Valid(Par)
           /\ Clause(T.id, "parameters that cannot be met were accepted", ~T.out.ok)
           /\ ph' = "compared" /\ UNCHANGED <<l, at, seen>>
Start == /\ ph = "shown" /\ T.out.status = "ok" /\ Valid(Par)
         /\ Clause(T.id, "the picture was refused", T.out.ok)
         /\ ph' = "sweep" /\ seen' = [j \in 1..Len(Os) |-> 0] /\ UNCHANGED <<l, at>>
Sweep == /\ ph = "sweep" /\ at < T.in.p.n /\ at' = at + 1
         /\ seen' = (LET p == Par o == Os th == Level(p, at + 1) IN Strict([j \in 1..Len(o) |-> seen[j] + (IF Kept(p, o[j], th) THEN 1 ELSE 0)]))
         /\ UNCHANGED <<l, ph>>
Number(k) == RIsNum(k[1]) /\ RIsNum(k[2]) /\ RIsNum(k[3])
At(k, o) == RLe(RAdd(RSq(RSub(Num(k[1]), o.x)), RSq(RSub(Num(k[2]), o.y))), RFrac(9, 16))
Size(k, o) == CASE o.kind \in {"disc", "ellipse"} -> RLe(RSub(RAdd(o.a, o.b), RFrac(12, 5)), Num(k[3])) /\ RLe(Num(k[3]), RAdd(RAdd(o.a, o.b), RAdd(RFrac(12, 5), RMul(RInt(2), o.w))))
                [] OTHER -> RLe(RSub(RAdd(o.a, o.b), RInt(3)), Num(k[3])) /\ RLe(Num(k[3]), RAdd(RMul(RFrac(8, 5), RAdd(o.a, o.b)), RInt(3)))
Is(k, o) == Number(k) /\ At(k, o) /\ Size(k, o)
Cones(o) == {j \in 1..Len(o) : Cone(o[j])}
\* the outline of a bright ground is the picture's own frame; a shape cut by the frame looks like anything
Frame(k) == (\E i \in 1..T.in.p.n : Bright(T.in.bg, Level(Par, i))) /\ RLt(RInt(150), Num(k[3]))
Compare == /\ ph = "sweep" /\ at = T.in.p.n
           /\ TRUE = (LET p == Par o == Os ks == T.out.x want == Strict(Reported(p, o, seen)) IN
                /\ Clause(T.id, "a blob is reported at no place or size", \A i \in 1..Len(ks) : Number(ks[i]))
                /\ Clause(T.id, "an admitted blob is not reported where it is", \A j \in want : \E i \in 1..Len(ks) : Is(ks[i], o[j]))
                /\ Clause(T.id, "a blob is reported more than once", \A j \in (1..Len(o)) \ Cones(o) : Cardinality({i \in 1..Len(ks) : Is(ks[i], o[j])}) < 2)
                /\ Clause(T.id, "a blob is reported that is not admitted", \A i \in 1..Len(ks) : (\E j \in want : Is(ks[i], o[j])) \/ (\E j \in Cones(o) : Is(ks[i], o[j])) \/ Frame(ks[i]) \/ (Len(T.in.cut) > 0 /\ \A j \in 1..Len(o) : ~Is(ks[i], o[j]))))
           /\ TRUE = (LET p == Par o == Os ks == T.out.x IN
                /\ Clause(T.id, "sightings of too different sizes were taken for one blob", \A j \in Cones(o) : ConeMay(p, o[j]) \/ \A i \in 1..Len(ks) : ~Is(ks[i], o[j]))
                /\ Clause(T.id, "sightings of one size were not taken for one blob", \A j \in Cones(o) : ConeMust(p, o[j]) => \E i \in 1..Len(ks) : Is(ks[i], o[j])))
           /\ ph' = "compared" /\ UNCHANGED <<l, at, seen>>
Final == /\ ph = "compared"
         /\ Clause(T.id, "detecting again gave something else", T.out.again)
         /\ Clause(T.id, "detecting changed the image", T.out.kept)
         /\ Clause(T.id, "drawing changed the image", T.out.draw_kept)
         /\ Clause(T.id, "drawing does not show the circles", T.out.drawn)
         /\ Accept(T.id) /\ ph' = "end" /\ UNCHANGED <<l, at, seen>>
Next == Lost \/ Refused \/ Start \/ Sweep \/ Compare \/ Final
Spec == Init /\ [][Next]_vars
=============================================================================
