------------------------------- MODULE CovGen -------------------------------
(***************************************************************************)
(* A linear least squares problem grows: parameter blocks are added, then  *)
(* observations (rows of integer coefficients), some parameters are held   *)
(* constant, and a covariance report is requested, well formed or not.     *)
(***************************************************************************)
EXTENDS Cov, Draws
VARIABLES sid, phase, sizes, rows, const, req
vars == <<sid, phase, sizes, rows, const, req>>
Kind(s) == <<"cov", "cov", "covmat", "cov", "thresh">>[1 + (s % 5)]
NB(s) == D(s, 1, 1, 4)
Total(sz) == LET RECURSIVE S(_) 
                 S(i) == IF i = 0 THEN 0 ELSE S(i - 1) + sz[i] IN S(Len(sz))
\* first parameter of block b, minus one
Off(sz, b) == Total(SubSeq(sz, 1, b - 1))
Init == sid \in 1..N /\ phase = "blocks" /\ sizes = <<>> /\ rows = <<>> /\ const = {} /\ req = <<>>
AddBlock == /\ phase = "blocks" /\ Kind(sid) = "cov"
            /\ sizes' = Append(sizes, IF Total(sizes) >= 5 THEN 1 ELSE D(sid, 2 + Len(sizes), 1, 3))
            /\ phase' = IF Len(sizes') = NB(sid) THEN "rows" ELSE "blocks"
            /\ UNCHANGED <<sid, rows, const, req>>
NP == Total(sizes)
\* one problem in eight has too few or dependent observations
Poor(s) == D(s, 10, 0, 7) = 0
NRows(s) == IF Poor(s) /\ D(s, 11, 0, 1) = 0 THEN (IF NP > 1 THEN NP - 1 ELSE 1) ELSE NP + D(s, 12, 0, 3)
RECURSIVE Coef(_, _)
Coef(r, k) == LET v == D(sid, 20 + 13*r + k, -3, 3) IN
              IF Poor(sid) /\ k = NP THEN (IF NP = 1 THEN 0 ELSE 2 * Coef(r, 1))
              ELSE IF r = k /\ v = 0 THEN 2 ELSE IF D(sid, 200 + 13*r + k, 0, 3) = 0 /\ r # k THEN 0 ELSE v
AddRow == /\ phase = "rows"
          /\ rows' = Append(rows, [k \in 1..NP |-> Coef(Len(rows) + 1, k)])
          /\ phase' = IF Len(rows') >= NRows(sid) THEN "const" ELSE "rows"
          /\ UNCHANGED <<sid, sizes, const, req>>
Hold == /\ phase = "const"
        /\ const' = CASE D(sid, 400, 0, 2) = 0 -> {}
                      [] D(sid, 400, 0, 2) = 1 -> {k \in 1..NP : D(sid, 410 + k, 0, 3) = 0}
                      [] OTHER -> LET b == D(sid, 401, 1, Len(sizes)) IN IF Len(sizes) = 1 THEN {} ELSE (Off(sizes, b) + 1)..(Off(sizes, b) + sizes[b])
        /\ phase' = "request" /\ UNCHANGED <<sid, sizes, rows, req>>
\* ---- the request ----
Order(s) == Perm(St(s), 500, Len(sizes))
Subset == SubSeq(Order(sid), 1, D(sid, 501, 1, Len(sizes)))
Named(s) == D(s, 502, 0, 1) = 1
AllBlocks(s) == D(s, 503, 0, 2) = 0
Blocks == IF AllBlocks(sid) THEN [b \in 1..Len(sizes) |-> b] ELSE Subset
\* what may be wrong with it
Wrong(s) == IF D(s, 504, 0, 3) > 0 THEN "nothing"
            ELSE PickD(s, 505, IF Named(s) THEN <<"short", "long", "missing", "extra", "foreign", "swapped">> ELSE <<"foreign", "twice">>)
Flaw(s) == IF AllBlocks(s) /\ Wrong(s) \in {"foreign", "twice"} THEN "nothing"
           ELSE IF Wrong(s) = "swapped" /\ AllBlocks(s) THEN "nothing" ELSE Wrong(s)
\* block 0 is a parameter block that the problem does not have (of size 2)
ReqBlocks == CASE Flaw(sid) = "foreign" -> Append(Blocks, 0)
               [] Flaw(sid) = "twice" -> Append(Blocks, Blocks[1])
               [] OTHER -> Blocks
SizeOf(b) == IF b = 0 THEN 2 ELSE sizes[b]
NameOf(b, e) == <<"alpha", "beta", "gamma", "delta">>[b] \o "_" \o <<"u", "v", "w">>[e]
\* names: one entry [b, n] per named block
NamesFor(b) == [b |-> b, n |-> IF b = 0 THEN <<"odd_u", "odd_v">> ELSE [e \in 1..sizes[b] |-> NameOf(b, e)]]
NameList ==
  LET base == [i \in 1..Len(ReqBlocks) |-> NamesFor(ReqBlocks[i])]
      i == D(sid, 506, 1, Len(base)) IN
  CASE Flaw(sid) = "short" -> [base EXCEPT ![i].n = SubSeq(@, 1, Len(@) - 1)]
    [] Flaw(sid) = "long" -> [base EXCEPT ![i].n = Append(@, "surplus")]
    [] Flaw(sid) = "missing" -> SubSeq(base, 1, i - 1) \o SubSeq(base, i + 1, Len(base))
    [] Flaw(sid) = "extra" -> Append(base, [b |-> 0, n |-> <<"odd_u", "odd_v">>])
    [] Flaw(sid) = "swapped" -> [base EXCEPT ![i] = [b |-> 0, n |-> <<"odd_u", "odd_v">>]]
    [] OTHER -> base
\* masks: for some blocks, in any order, perhaps with repetitions, perhaps for a block nobody asked about
MaskFor(b) == LET m == SelectSeq(Perm(St(sid), 520 + b, sizes[b]), LAMBDA e : D(sid, 530 + 5*b + e, 0, 2) = 0)
              IN IF m # <<>> /\ D(sid, 560 + b, 0, 3) = 0 THEN Append(m, m[1]) ELSE m
Masks == IF D(sid, 507, 0, 2) = 0 THEN <<>>
         ELSE SelectSeq([b \in 1..Len(sizes) |-> [b |-> b, m |-> MaskFor(b)]], LAMBDA r : r.m # <<>> \/ D(sid, 570 + r.b, 0, 1) = 0)
Request == /\ phase = "request"
           /\ req' = [all |-> AllBlocks(sid), named |-> Named(sid), blocks |-> ReqBlocks, names |-> IF Named(sid) THEN NameList ELSE <<>>, masks |-> Masks, flaw |-> Flaw(sid)]
           /\ phase' = "ready" /\ UNCHANGED <<sid, sizes, rows, const>>
\* the unit the observations are made in: coefficients are multiplied, given matrices divided twice, by two to this power
Unit(s) == PickD(s, 680, <<0, 0, 0, 10, 17, 28>>)
\* ---- reports about a given matrix, and threshold queries ----
MDim(s) == D(s, 600, 1, 5)
Half(i, k) == IF D(sid, 610 + i, 0, 6) = 0 THEN 0 ELSE D(sid, 620 + 7*i + k, -3, 3)
Sigma == [i \in 1..MDim(sid) |-> [k \in 1..MDim(sid) |->
            LET RECURSIVE S(_) 
                S(m) == IF m = 0 THEN 0 ELSE S(m - 1) + Half(i, m) * Half(k, m) IN S(MDim(sid))]]
\* magnitudes of the correlations asked about are k/16; the threshold hits one of them or lies between two
Corrs == [k \in 1..D(sid, 650, 0, 6) |-> RFrac(D(sid, 651 + k, -16, 16), 16)]
Threshold == RFrac(D(sid, 670, -2, 33), 32)
Case == LET base == [id |-> "C07-" \o ToString(sid), op |-> Kind(sid), unit |-> Unit(sid)] IN
  CASE Kind(sid) = "cov" -> base @@ [sizes |-> sizes, rows |-> rows, const |-> SelectSeq([k \in 1..NP |-> k], LAMBDA k : k \in const), req |-> req]
    [] Kind(sid) = "covmat" -> base @@ [m |-> Sigma, names |-> LET n == MDim(sid) + (IF D(sid, 601, 0, 7) = 0 THEN 1 ELSE IF D(sid, 601, 0, 7) = 1 THEN -1 ELSE 0) IN [k \in 1..n |-> "p" \o ToString(k)],
                                        rect |-> D(sid, 602, 0, 9) = 0]
    [] OTHER -> base @@ [corr |-> [k \in 1..Len(Corrs) |-> [a |-> "p" \o ToString(k), b |-> "q" \o ToString(k), v |-> RDec(Corrs[k])]], t |-> RDec(Threshold)]
Emit == /\ (phase = "ready" \/ (phase = "blocks" /\ Kind(sid) # "cov"))
        /\ PrintT("CASE " \o ToJson(Case)) /\ phase' = "done" /\ UNCHANGED <<sid, sizes, rows, const, req>>
Next == AddBlock \/ AddRow \/ Hold \/ Request \/ Emit
Spec == Init /\ [][Next]_vars
\* ---- what the model promises ----
RowsR == Strict([i \in 1..Len(rows) |-> [k \in 1..NP |-> RInt(rows[i][k])]])
FreeCols == SelectSeq([k \in 1..NP |-> k], LAMBDA k : k \notin const)
TheCov == CovOf(RowsR, NP, FreeCols, Exact)
\* a covariance is symmetric, has no negative variance, and the correlations lie within one
Sound == phase = "ready" => LET c == TheCov IN c # <<>> =>
   \A i, j \in 1..NP : /\ c[i][j] = c[j][i] /\ RSgn(c[i][i]) >= 0
                       /\ RLe(RSq(c[i][j]), RMul(c[i][i], c[j][j]))
\* one more observation never makes a parameter less certain
Informative == phase = "ready" /\ Len(rows) > Len(FreeCols) =>
   LET less == CovOf(SubSeq(RowsR, 1, Len(rows) - 1), NP, FreeCols, Exact) more == TheCov IN
   less # <<>> => more # <<>> /\ \A i \in 1..NP : RLe(more[i][i], less[i][i])
\* poorly observed problems have no covariance unless the unobserved parameter is held constant
PoorIsRefused == phase = "ready" /\ Poor(sid) /\ const = {} /\ Len(rows) >= NP => TheCov = <<>>
=============================================================================
