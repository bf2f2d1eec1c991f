---------------------------- MODULE KinCalTrace -----------------------------
(* given -> refused, or given -> started -> returned -> explained *)
EXTENDS KinCal, CovReport
VARIABLES l, ph
vars == <<l, ph>>
T == Trace[l]
O == T.out
In == T.in
\* the angle between nearly equal rotations is good for half of the digits only
Tiny == IF In.dim = 6 THEN RParse("1e-9") ELSE RParse("1e-12")
CostIs(r, e) == RIsNum(r) /\ RLe(RAbs(RSub(Num(r), e)), RAdd(RMul(RParse("1e-6"), e), Tiny))
BlockSize(k) == IF Len(In.dhmask[k]) = 0 THEN 4 ELSE 4 * Len(In.dhmask[k])
MustRefuse == \/ \E k \in 1..6 : \E i \in SeqSet(In.mask[k]) : i > 2
              \/ \E k \in 1..2 : \E i \in SeqSet(In.extra[k]) : i >= BlockSize(k)
\* (an observation without features is never measured)
Measured(v) == In.dim = 6 \/ Len(v.feats) > 0
Wrong(v) == Len(v.cj) > Len(In.dhmask[1]) \/ Len(v.tj) > Len(In.dhmask[2])
Odd == \E k \in 1..Len(In.views) : Wrong(In.views[k])
Misfit == \E k \in 1..Len(In.views) : Wrong(In.views[k]) /\ Measured(In.views[k])
Init == l \in 1..Len(Trace) /\ ph = "given"
Crash == /\ ph = "given" /\ O.status \notin {"ok", "throw"}
         /\ Clause(T.id, (IF Misfit THEN "joints that do not fit the chain: " ELSE "did not return: ") \o O.status, FALSE) /\ UNCHANGED vars
Refuse == /\ ph = "given" /\ O.status = "throw"
          /\ Clause(T.id, "refused a problem that can be solved: " \o O.what, MustRefuse \/ Odd)
          /\ Clause(T.id, "a bad mask is refused with " \o O.type, Odd \/ O.type = "rct_optimizations::OptimizationException")
          /\ Clause(T.id, "refused only after solving", Odd \/ Len(O.solves) = 0)
          /\ Accept(T.id) /\ ph' = "end" /\ UNCHANGED l
Start ==
  /\ ph = "given" /\ O.status = "ok"
  /\ Clause(T.id, "accepted a mask of a parameter that does not exist", ~MustRefuse)
  /\ Clause(T.id, "accepted joints that do not fit the chain", ~Misfit)
  /\ \A k \in 1..2 : Clause(T.id, "mask indices of chain " \o ToString(k), SeqSet(O.masks[k]) = MaskIdx(In.dhmask[k]) /\ Len(O.masks[k]) = Cardinality(MaskIdx(In.dhmask[k])))
  /\ TRUE = (LET c == Strict(CostPerObs(ReadProb(In), GuessEst(In))) IN
             Clause(T.id, "initial cost is " \o RShow(Num(O.init)) \o ", that of the guess " \o RShow(c), CostIs(O.init, c)))
  /\ ph' = "started" /\ UNCHANGED l
Est == Strict([cam |-> ReadMPose(O.cam), tgt |-> ReadMPose(O.tgt), base |-> ReadMPose(O.base), coff |-> ReadOffs(O.coff), toff |-> ReadOffs(O.toff)])
\* ---- constants ----
ZeroText == {"0x0p+0", "-0x0p+0"}
OffsKept(o, table) == Len(o) = Len(table) /\ \A i \in 1..Len(o) : Len(o[i]) = 4 /\ \A k \in 1..4 : RIsNum(o[i][k]) /\ (table[i][k] = 1 => o[i][k] \in ZeroText)
\* Num of a guess is the decimal; what the program was given is the nearest double
Close(a, b, tol) == RLe(RAbs(RSub(a, b)), RMul(tol, RMax(ROne, RAbs(b))))
PoseKept(six, p, r, pm, rm) ==
  /\ \A k \in 1..3 : (k - 1) \in SeqSet(pm) => Close(p.t[k], six.t[k], RParse("1.2e-16"))
  /\ SeqSet(rm) = 0..2 => MNear(p.m, AxisAngle(six.r), RParse("1e-12"))
  /\ RLt(VSq(six.r), RInt(9)) /\ RLt(VSq(r), RInt(9)) => \A k \in 1..3 : (k - 1) \in SeqSet(rm) => RNear(r[k], six.r[k], RParse("1e-9"))
Kept(est) ==
  /\ Clause(T.id, "an offset of the camera chain that was declared constant changed", OffsKept(O.coff, In.dhmask[1]))
  /\ Clause(T.id, "an offset of the target chain that was declared constant changed", OffsKept(O.toff, In.dhmask[2]))
  /\ Clause(T.id, "a constant of camera mount to camera changed", PoseKept(ReadSix(In.cam), est.cam, NumV(O.camr), In.mask[1], In.mask[2]))
  /\ Clause(T.id, "a constant of target mount to target changed", PoseKept(ReadSix(In.tgt), est.tgt, NumV(O.tgtr), In.mask[3], In.mask[4]))
  /\ Clause(T.id, "a constant of camera base to target base changed", PoseKept(ReadSix(In.base), est.base, NumV(O.baser), In.mask[5], In.mask[6]))
NoWorse == RLe(Num(O.final), RAdd(RMul(Num(O.init), RParse("1.000000001")), RParse("1e-20")))
FlagHonest == Len(O.solves) > 0 => (O.converged <=> O.solves[Len(O.solves)].term = 0)
TruthEst == Strict([cam |-> SixM(ReadSix(In.truth.cam)), tgt |-> SixM(ReadSix(In.truth.tgt)), base |-> SixM(ReadSix(In.truth.base)),
                    coff |-> ReadOffs(In.truth.coff), toff |-> ReadOffs(In.truth.toff)])
Return ==
  /\ ph = "started"
  /\ \A s \in {O.cam, O.tgt, O.base} : Clause(T.id, "a reported pose is not a number", FiniteSeq(s))
  /\ TRUE = (LET est == Est prob == ReadProb(In) IN
       /\ \A p \in {est.cam, est.tgt, est.base} : Clause(T.id, "a reported pose is not rigid", IsRotation(p.m, RParse("1e-9")))
       /\ Kept(est)
       /\ LET c == Strict(CostPerObs(prob, est)) IN
          /\ Clause(T.id, "final cost is " \o RShow(Num(O.final)) \o ", that of the returned estimate " \o RShow(c), CostIs(O.final, c))
          /\ Clause(T.id, "final cost exceeds initial cost", NoWorse)
          /\ Clause(T.id, "convergence flag contradicts the solve", FlagHonest)
          /\ Clause(T.id, "more iterations than were allowed", In.dim = 2 \/ In.iters >= 0 \/ \A k \in 1..Len(O.solves) : O.solves[k].iters <= In.limit + 1)
          /\ In.style \in {"plain", "offset", "perfect"} /\ (In.dim = 2 \/ In.style = "perfect") =>
               LET best == Strict(CostPerObs(prob, TruthEst)) IN
               \* (whether the solver calls this convergence depends on how flat the valley around the truth is)
               \* (the orientation error of a measured pose has a kink at its minimum, where the solver may stop early)
               /\ Clause(T.id, "noise-free data are explained with cost " \o RShow(c) \o ", the truth's is " \o RShow(best),
                         RLe(c, RAdd(RMul(best, RParse("1.01")), RParse("1e-6")))))
  /\ ph' = "returned" /\ UNCHANGED l
\* ---- covariance: every free parameter under its name ----
Axes == <<"x", "y", "z", "rx", "ry", "rz">>
Dhs == <<"d", "theta", "r", "alpha">>
Links(k) == IF k = 1 THEN In.cchain.links ELSE In.tchain.links
DhName(k, i, j) == Links(k)[i].name \o "_" \o Dhs[j]
PoseName(k, a) == (CASE k = 1 -> In.lab.cam [] k = 2 -> In.lab.tgt [] OTHER -> In.lab.base) \o "_" \o Axes[a]
\* free parameters in any order: chains <<1|2, row, column>>, poses <<3|4|5, axis, 0>>
FreeParams ==
  LET dh(k) == [n \in 1..(4 * Len(In.dhmask[k])) |-> LET i == ((n - 1) \div 4) + 1 j == ((n - 1) % 4) + 1 IN <<k, i, j>>]
      ps(k) == [a \in 1..6 |-> <<k + 2, a, 0>>]
      free(x) == IF x[1] <= 2 THEN In.dhmask[x[1]][x[2]][x[3]] = 0
                 ELSE ~((((x[2] - 1) % 3)) \in SeqSet(In.mask[(2 * (x[1] - 3)) + 1 + ((x[2] - 1) \div 3)]))
  IN Strict(SelectSeq(dh(1) \o dh(2) \o ps(1) \o ps(2) \o ps(3), free))
NameOf(x) == IF x[1] <= 2 THEN DhName(x[1], x[2], x[3]) ELSE PoseName(x[1] - 2, x[2])
\* names may also be reported for the stand-ins of chains without joints; they are known exactly
StandIn(e) == e.v \in ZeroText
Explain ==
  /\ ph = "returned"
  /\ TRUE = (LET names == Strict([n \in 1..Len(FreeParams) |-> NameOf(FreeParams[n])]) IN
       /\ \A n \in 1..Len(names) : Clause(T.id, "uncertainty of " \o names[n] \o " is reported other than once", Cardinality({i \in 1..Len(O.cov.sd) : O.cov.sd[i].a = names[n]}) = 1)
       /\ \A i \in 1..Len(O.cov.sd) : Clause(T.id, "uncertainty of something else: " \o O.cov.sd[i].a, StandIn(O.cov.sd[i]) \/ \E n \in 1..Len(names) : names[n] = O.cov.sd[i].a))
  \* what is said to be optimized is what is free
  /\ TRUE = (LET said == Strict(SelectSeq(O.told, LAMBDA s : s # "Constant")) names == Strict([n \in 1..Len(FreeParams) |-> NameOf(FreeParams[n])]) IN
       O.told # <<>> =>
         /\ \A n \in 1..Len(names) : Clause(T.id, "the list of what is optimized lacks " \o names[n], \E i \in 1..Len(said) : said[i] = names[n])
         /\ Clause(T.id, "the list of what is optimized names something else", Len(said) = Len(names)))
  /\ Accept(T.id) /\ ph' = "end" /\ UNCHANGED l
Next == Crash \/ Refuse \/ Start \/ Return \/ Explain
Spec == Init /\ [][Next]_vars
=============================================================================
