-------------------------------- MODULE Cov ---------------------------------
(***************************************************************************)
(* Covariance of least squares: the inverse of J^T J over the free         *)
(* parameters, zero for the constant ones.  Matrices are sequences of rows *)
(* of rationals; Rd rounds intermediate entries (identity when exact).     *)
(***************************************************************************)
EXTENDS Geom

Exact(x) == x
Rd40(x) == RRound(x, RParse("1e40"))

\* inverse of a symmetric positive matrix by Gauss-Jordan elimination in place; <<>> when a pivot is not positive
Inverse(m0, Rd(_)) ==
  LET n == Len(m0)
      RECURSIVE Go(_, _)
      Step(m, c) ==
        LET p == m[c][c]
            prow == Strict([k \in 1..n |-> IF k = c THEN Rd(RDiv(ROne, p)) ELSE Rd(RDiv(m[c][k], p))])
        IN  Strict([r \in 1..n |-> IF r = c THEN prow
                            ELSE IF RSgn(m[r][c]) = 0 THEN m[r]
                            ELSE LET f == m[r][c] row == m[r] IN
                                 [k \in 1..n |-> IF k = c THEN Rd(RNeg(RMul(f, prow[c]))) ELSE Rd(RSubMul(row[k], f, prow[k]))]])
      Go(m, c) == IF c > n THEN m
                  ELSE IF RSgn(m[c][c]) <= 0 THEN <<>>
                  ELSE LET nx == Strict(Step(m, c)) IN Go(nx, c + 1)
  IN Go(m0, 1)

\* a^T a, restricted to the columns listed in cols
Normal(a, cols, Rd(_)) ==
  LET t == Strict([r \in 1..Len(cols) |-> [i \in 1..Len(a) |-> a[i][cols[r]]]]) IN
  Strict([r \in 1..Len(cols) |-> [k \in 1..Len(cols) |-> Rd(RDot(t[r], t[k]))]])
\* position of x in a sequence without repetitions, 0 if absent
PosIn(x, seq) == IF \E i \in 1..Len(seq) : seq[i] = x THEN CHOOSE i \in 1..Len(seq) : seq[i] = x ELSE 0
\* with fewer observations than free parameters: the pseudo inverse a^T (a a^T)^-2 a, which leaves unobserved directions out
Wide(a, cols, Rd(_)) ==
  IF a = <<>> THEN [r \in 1..Len(cols) |-> [k \in 1..Len(cols) |-> RZero]]
  ELSE LET m == Len(a) n == Len(cols)
           g == Inverse(Strict([i \in 1..m |-> [j \in 1..m |-> RSum([k \in 1..n |-> RMul(a[i][cols[k]], a[j][cols[k]])])]]), Rd) IN
       IF g = <<>> THEN <<>>
       ELSE LET h == Strict([i \in 1..m |-> [k \in 1..n |-> RSum([j \in 1..m |-> RMul(g[i][j], a[j][cols[k]])])]]) IN
            Strict([r \in 1..n |-> [k \in 1..n |-> Rd(RSum([i \in 1..m |-> RMul(h[i][r], h[i][k])]))]])
\* the covariance of n parameters of which cols are free: an n x n matrix, <<>> when it does not exist
CovOf(a, n, cols, Rd(_)) ==
  IF cols = <<>> THEN [r \in 1..n |-> [k \in 1..n |-> RZero]]
  ELSE LET inv == IF Len(a) < Len(cols) THEN Wide(a, cols, Rd) ELSE Inverse(Normal(a, cols, Rd), Rd) IN
       IF inv = <<>> THEN <<>>
       ELSE Strict([r \in 1..n |-> [k \in 1..n |->
               LET i == PosIn(r, cols) j == PosIn(k, cols) IN IF i = 0 \/ j = 0 THEN RZero ELSE inv[i][j]]])

\* what a report says about parameter i: its deviation, and for a pair the correlation
Dev(v) == RSqrt(RAbs(v))
Corr(c, dev, i, j) == IF RSgn(dev[i]) = 0 \/ RSgn(dev[j]) = 0 THEN RZero ELSE RDiv(c[i][j], RMul(dev[i], dev[j]))
=============================================================================
