------------------------------ MODULE CovTrace ------------------------------
(* requested -> refused | reported, for covariance requests *)
EXTENDS CovReport
VARIABLES l, ph
vars == <<l, ph>>
T == Trace[l]
NP == LET RECURSIVE S(_) 
          S(i) == IF i = 0 THEN 0 ELSE S(i - 1) + T.in.sizes[i] IN S(Len(T.in.sizes))
Off(b) == LET RECURSIVE S(_) 
              S(i) == IF i = 0 THEN 0 ELSE S(i - 1) + T.in.sizes[i] IN S(b - 1)
\* an observation of nothing is none
Seen == SelectSeq(T.in.rows, LAMBDA r : \E k \in 1..NP : r[k] # 0)
Rows == Strict([i \in 1..Len(Seen) |-> [k \in 1..NP |-> RMul(RInt(Seen[i][k]), RInt(2^T.in.unit))]])
IsConst(k) == \E i \in 1..Len(T.in.const) : T.in.const[i] = k
R == T.in.req
\* a request for all blocks lists them in the problem's own order
Blocks == IF R.all THEN T.out.order ELSE R.blocks
Free(k) == ~IsConst(k)
Cov == CovOf(Rows, NP, SelectSeq([k \in 1..NP |-> k], LAMBDA k : Free(k)), Exact)
\* what is held constant does not vary, however little is known about the rest
AllHeld == \A i \in 1..Len(Blocks) : \A e \in 1..T.in.sizes[Blocks[i]] : ~Free(Off(Blocks[i]) + e)
Nothing == [i \in 1..NP |-> [j \in 1..NP |-> RZero]]
Masked(b, e) == \E i \in 1..Len(R.masks) : R.masks[i].b = b /\ \E j \in 1..Len(R.masks[i].m) : R.masks[i].m[j] = e
\* the unmasked parameters of the requested blocks, in order: <<position in the request, block, element>>
Listed == LET one(i) == LET b == Blocks[i] IN SelectSeq([e \in 1..T.in.sizes[b] |-> <<i, b, e>>], LAMBDA p : ~Masked(b, p[3]))
              RECURSIVE All(_)
              All(i) == IF i = 0 THEN <<>> ELSE All(i - 1) \o one(i)
          IN All(Len(Blocks))
NameOf(p) == IF R.named THEN (LET i == CHOOSE i \in 1..Len(R.names) : R.names[i].b = p[2] IN R.names[i].n[p[3]])
             ELSE "block" \o ToString(p[1] - 1) \o "_element" \o ToString(p[3] - 1)
WellFormed == R.flaw = "nothing"
Init == l \in 1..Len(Trace) /\ ph = "requested"
Lost == ph = "requested" /\ T.out.status \notin {"ok", "throw"} /\ Clause(T.id, "did not return: " \o T.out.status, FALSE) /\ UNCHANGED vars
Refused == /\ ph = "requested" /\ T.out.status = "throw"
           /\ CASE T.op = "cov" -> Clause(T.id, "refused a well-formed request (" \o T.out.what \o ")", ~WellFormed \/ Cov = <<>>)
                [] T.op = "covmat" -> Clause(T.id, "refused names that fit (" \o T.out.what \o ")", T.in.rect \/ Len(T.in.names) # Len(T.in.m))
                [] OTHER -> Clause(T.id, "a query failed", FALSE)
           /\ Accept(T.id) /\ ph' = "end" /\ UNCHANGED l
Report == /\ ph = "requested" /\ T.out.status = "ok" /\ T.op = "cov"
          /\ Clause(T.id, "reported on a malformed request: " \o R.flaw, WellFormed)
          /\ Clause(T.id, "not every block of the problem once", R.all => \A b \in 1..Len(T.in.sizes) : \E i \in 1..Len(Blocks) : Blocks[i] = b)
          /\ TRUE = (LET ex == Strict(Cov) c == IF ex = <<>> /\ AllHeld THEN Nothing ELSE ex IN
                     /\ Clause(T.id, "reported a covariance that does not exist", c # <<>>)
                     /\ LET ps == Listed
                            idx == Strict([i \in 1..Len(ps) |-> Off(ps[i][2]) + ps[i][3]])
                        IN  Faithful(T.id, T.out.cov, [i \in 1..Len(ps) |-> NameOf(ps[i])],
                                     Strict([i \in 1..Len(ps) |-> [j \in 1..Len(ps) |-> c[idx[i]][idx[j]]]]), RParse("1e-8")))
          /\ Accept(T.id) /\ ph' = "end" /\ UNCHANGED l
MatReport == /\ ph = "requested" /\ T.out.status = "ok" /\ T.op = "covmat"
             /\ Clause(T.id, "reported on names that do not fit", ~T.in.rect /\ Len(T.in.names) = Len(T.in.m))
             /\ TRUE = (LET n == Len(T.in.m) IN
                        Faithful(T.id, T.out.cov, T.in.names, Strict([i \in 1..n |-> [j \in 1..n |-> RDiv(RFrac(T.in.m[i][j], 2^T.in.unit), RInt(2^T.in.unit))]]), RParse("1e-13")))
             /\ Accept(T.id) /\ ph' = "end" /\ UNCHANGED l
\* pairs above the threshold, largest magnitude first
Above == {k \in 1..Len(T.in.corr) : RLt(Num(T.in.t), RAbs(Num(T.in.corr[k].v)))}
Same(x, k) == x.a = T.in.corr[k].a /\ x.b = T.in.corr[k].b /\ RIsNum(x.v) /\ Num(x.v) = Num(T.in.corr[k].v)
Query == /\ ph = "requested" /\ T.out.status = "ok" /\ T.op = "thresh"
         /\ TRUE = (LET got == T.out.got IN
                    /\ Clause(T.id, "threshold query returns other pairs", Len(got) = Cardinality(Above) /\ \A k \in Above : \E i \in 1..Len(got) : Same(got[i], k))
                    /\ Clause(T.id, "threshold query is not sorted by magnitude", \A i \in 1..(Len(got) - 1) : RLe(RAbs(Num(got[i + 1].v)), RAbs(Num(got[i].v))))
                    /\ Clause(T.id, "printed pairs differ from the query", Len(T.out.printed) = Len(got) /\ \A k \in Above : \E i \in 1..Len(got) : T.out.printed[i] = T.in.corr[k].a))
         /\ Accept(T.id) /\ ph' = "end" /\ UNCHANGED l
Next == Lost \/ Refused \/ Report \/ MatReport \/ Query
Spec == Init /\ [][Next]_vars
=============================================================================
