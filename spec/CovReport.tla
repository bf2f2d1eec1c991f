----------------------------- MODULE CovReport ------------------------------
(***************************************************************************)
(* A covariance report o = [sd, cov, corr, covm, corrm] describes the      *)
(* matrix c (rows in the order of names) faithfully.  tol is relative to   *)
(* the deviations of the parameters involved.                              *)
(***************************************************************************)
EXTENDS Cov, TraceIO
NumIs(r, e, tol) == RIsNum(r) /\ RLe(RAbs(RSub(Num(r), e)), tol)
\* the positions of the two names of every entry of a list
Places(list, names) == Strict([k \in 1..Len(list) |-> <<PosIn(list[k].a, names), PosIn(list[k].b, names)>>])
EveryPairOnce(at, n) ==
  /\ Len(at) = (n * (n - 1)) \div 2
  /\ \A k \in 1..Len(at) : at[k][1] # 0 /\ at[k][2] # 0 /\ at[k][1] # at[k][2]
  /\ Cardinality({ {at[k][1], at[k][2]} : k \in 1..Len(at) }) = Len(at)
Faithful(id, o0, names0, c0, tol) ==
  LET n == Len(names0)
      c == Strict(c0)
      names == Strict(names0)
      o == Strict(o0)
      dev == Strict([i \in 1..n |-> Dev(c[i][i])])
      abs(i, j) == RAdd(RMul(tol, RMul(dev[i], dev[j])), RParse("1e-18"))
      cat == Places(o.cov, names)
      rat == Places(o.corr, names)
      rtol == RMul(RInt(4), RAdd(tol, RParse("1e-12")))
      of(i, j) == names[i] \o " and " \o names[j]
  IN
  /\ Clause(id, "one standard deviation per parameter, in order", Len(o.sd) = n /\ \A i \in 1..n : o.sd[i].a = names[i])
  /\ Clause(id, "covariance matrix has the wrong size", Len(o.covm) = n /\ \A i \in 1..n : Len(o.covm[i]) = n)
  /\ Clause(id, "correlation matrix has the wrong size", Len(o.corrm) = n /\ \A i \in 1..n : Len(o.corrm[i]) = n)
  /\ Clause(id, "every pair of parameters exactly once (covariance)", EveryPairOnce(cat, n))
  /\ Clause(id, "every pair of parameters exactly once (correlation)", EveryPairOnce(rat, n))
  /\ \A i \in 1..n : LET t == RAdd(RMul(tol, dev[i]), RParse("1e-12")) IN
       /\ Clause(id, "standard deviation of " \o names[i], NumIs(o.sd[i].v, dev[i], t))
       /\ Clause(id, "diagonal of the correlation matrix at " \o names[i], NumIs(o.corrm[i][i], dev[i], t))
  /\ \A i, j \in 1..n : Clause(id, "covariance matrix at " \o of(i, j), NumIs(o.covm[i][j], c[i][j], abs(i, j)))
  /\ \A k \in 1..Len(cat) : LET i == cat[k][1] j == cat[k][2] IN
       Clause(id, "covariance of " \o of(i, j), NumIs(o.cov[k].v, c[i][j], abs(i, j)))
  /\ \A k \in 1..Len(rat) : LET i == rat[k][1] j == rat[k][2] r == Strict(Corr(c, dev, i, j)) IN
       /\ Clause(id, "correlation of " \o of(i, j), NumIs(o.corr[k].v, r, rtol))
       /\ Clause(id, "correlation matrix at " \o of(i, j), NumIs(o.corrm[i][j], r, rtol) /\ NumIs(o.corrm[j][i], r, rtol))
=============================================================================
