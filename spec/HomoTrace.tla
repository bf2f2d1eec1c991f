----------------------------- MODULE HomoTrace ------------------------------
(* asked -> refused | chosen -> judged *)
EXTENDS Homo, TraceIO
VARIABLES l, ph
vars == <<l, ph>>
T == Trace[l]
S == T.in.sampler
MustRefuse == CASE S.kind = "grid" -> ~GridOk(S.rows, S.cols)
                [] OTHER -> S.samples < 4 \/ S.samples > S.n
NF == Len(T.in.feats)
NS == IF S.kind = "grid" THEN 4 ELSE S.samples
\* a set too small for the samples, or that does not hold a sampled feature, cannot be judged
TooFew == NF < 2 * NS \/ (S.kind = "grid" /\ \E i \in Corners(S.rows, S.cols, S.stride) : i >= NF)
Range(s) == { s[i] : i \in 1..Len(s) }
Init == l \in 1..Len(Trace) /\ ph = "asked"
Lost == ph = "asked" /\ T.out.status \notin {"ok", "throw"} /\ Clause(T.id, "did not return: " \o T.out.status, FALSE) /\ UNCHANGED vars
Refuse == /\ ph = "asked" /\ T.out.status = "throw"
          /\ Clause(T.id, "refused a request that fits", MustRefuse \/ (T.op = "homoerr" /\
               \/ TooFew
               \/ (S.kind = "random" /\ S.n > NF)))
          /\ Accept(T.id) /\ ph' = "end" /\ UNCHANGED l
\* indices chosen: valid, distinct, as many as asked for, always the same
Choice(c, n) == /\ Clause(T.id, "number of samples", Len(c) = NS)
                /\ Clause(T.id, "sample outside the features", \A i \in 1..Len(c) : c[i] >= 0 /\ c[i] < n)
                /\ Clause(T.id, "a feature was sampled twice", Cardinality(Range(c)) = Len(c))
                /\ (S.kind = "grid" => Clause(T.id, "not the corners of the grid", Range(c) = Corners(S.rows, S.cols, S.stride)))
Known == IF S.kind = "grid" THEN S.rows * S.cols * S.stride ELSE S.n
Chosen == /\ ph = "asked" /\ T.out.status = "ok"
          /\ Clause(T.id, "accepted sizes that do not fit", ~MustRefuse)
          /\ TRUE = (\A i \in 1..Len(T.out.picks) : Choice(T.out.picks[i], Known))
          /\ Clause(T.id, "the same sampler chose differently", T.out.again = T.out.picks)
          /\ ph' = "chosen" /\ UNCHANGED l
Sampled == /\ ph = "chosen" /\ T.op = "homosample"
           /\ Clause(T.id, "some features are never sampled", T.in.many > 1 /\ S.kind = "random" => UNION { Range(T.out.picks[i]) : i \in 1..Len(T.out.picks) } = 0..(S.n - 1))
           /\ Accept(T.id) /\ ph' = "end" /\ UNCHANGED l
Pts == Strict([j \in 1..NF |-> NumV(T.in.feats[j].p)])
Raw == Strict([j \in 1..NF |-> NumV(T.in.feats[j].o)])
Flat(o) == IF Len(o) = 3 THEN << RDiv(o[1], o[3]), RDiv(o[2], o[3]) >> ELSE o
Far(o) == IF Len(o) = 3 THEN RAbs(o[3]) ELSE ROne
\* four of the sampled features in general position, in the target and in the image
Quads(c) == { q \in (SUBSET Range(c)) : Cardinality(q) = 4 }
SeqOf(q) == LET RECURSIVE G(_) 
                G(s) == IF s = {} THEN <<>> ELSE LET m == CHOOSE m \in s : \A n \in s : m <= n IN <<m>> \o G(s \ {m}) IN G(q)
Pick4(v, q) == Strict([k \in 1..4 |-> v[q[k] + 1]])
Firm(p, u, c) == { q \in Quads(c) : General(Pick4(p, SeqOf(q))) /\ General(Pick4(u, SeqOf(q))) }
\* no feature near the line that the homography sends to infinity
Tame(hh, p) == \A j \in 1..NF : RLt(RFrac(1, 5), Depth(hh, p[j])) /\ RLt(Depth(hh, p[j]), RInt(5))
Tol == IF T.in.dim = 3 THEN RParse("1e-8") ELSE RParse("1e-6")
Dist(a, b) == RSqrt(RRound(D2(a, b), Grid24))
Judged == /\ ph = "chosen" /\ T.op = "homoerr"
          /\ Clause(T.id, "too few features were judged", ~TooFew)
          /\ Clause(T.id, "one error per feature", Len(T.out.err) = NF)
          /\ TRUE = (LET p == Strict(Pts) raw == Strict(Raw) u == Strict([j \in 1..NF |-> Flat(raw[j])])
                         c == T.out.picks[1]
                         firm == Firm(p, u, c) IN
                     firm # {} =>
                       LET q == Strict(SeqOf(CHOOSE q \in firm : TRUE))
                           hh == Strict(Scale1(Through(Pick4(p, q), Pick4(u, q))))
                           e == Strict([j \in 1..NF |-> RMul(Far(raw[j]), Dist(u[j], Hom(hh, p[j])))])
                           \* the samples agree on one homography
                           agreed == \A i \in Range(c) : RLt(e[i + 1], RParse("1e-15"))
                       IN  Tame(hh, p) /\ agreed =>
                           \A j \in 1..NF : Clause(T.id, "error is not the distance from the projective prediction",
                                RIsNum(T.out.err[j]) /\ RLe(RAbs(RSub(Num(T.out.err[j]), e[j])), RMul(Tol, RAdd(ROne, e[j])))))
          /\ Accept(T.id) /\ ph' = "end" /\ UNCHANGED l
Next == Lost \/ Refuse \/ Chosen \/ Sampled \/ Judged
Spec == Init /\ [][Next]_vars
=============================================================================
