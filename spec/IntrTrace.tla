----------------------------- MODULE IntrTrace -----------------------------
(***************************************************************************)
(* given -> refused                                                        *)
(* given -> solved -> reported                                             *)
(***************************************************************************)
EXTENDS Distort, CalibCov
CONSTANT MODE
VARIABLES l, ph
vars == <<l, ph>>
T == Trace[l]
NI == Len(T.in.imgs)
Img(k) == [a \in 1..Len(T.in.imgs[k]) |-> [o |-> NumV(T.in.imgs[k][a].o), p |-> NumV(T.in.imgs[k][a].p)]]
Bad(k) == \E i \in 1..Len(T.in.bad) : T.in.bad[i] = k
Good == SelectSeq([k \in 1..NI |-> k], LAMBDA k : ~Bad(k))
\* a guess for every image or none is used
Mismatch == T.in.use /\ Len(T.in.guesses) # NI
Truth == NumV(T.in.tk)
Init == l \in 1..Len(Trace) /\ ph = "given"
Lost == ph = "given" /\ T.out.status \notin {"ok", "throw"} /\ Clause(T.id, "did not return: " \o T.out.status, FALSE) /\ UNCHANGED vars
\* one or two images may leave the nine intrinsics undetermined; then there is no covariance, which is said after the solve
TooFlat == Len(Good) <= 2 /\ T.out.type = "rct_optimizations::CovarianceException" /\ Len(T.out.solves) = NI + 1
Refuse == /\ ph = "given" /\ T.out.status = "throw"
          /\ Clause(T.id, "refused a problem that has to be solved (" \o T.out.what \o ")", Mismatch \/ Good = <<>> \/ TooFlat)
          /\ Accept(T.id) /\ ph' = "end" /\ UNCHANGED l
Solve == /\ ph = "given" /\ T.out.status = "ok"
         /\ Clause(T.id, "solved with guesses that do not fit the images", ~Mismatch)
         /\ Clause(T.id, "solved without a single usable image", Good # <<>>)
         /\ Clause(T.id, "one pose per image", Len(T.out.poses) = NI)
         /\ Clause(T.id, "malformed intrinsics", Len(T.out.k) = 9 /\ \A k \in 1..9 : RIsNum(T.out.k[k]))
         /\ Clause(T.id, "pose of a usable image is not a number", \A i \in 1..Len(Good) : FiniteSeq(T.out.poses[Good[i]]))
         /\ Clause(T.id, "pose reported for an image without one", \A i \in 1..Len(T.in.bad) : ~FiniteSeq(T.out.poses[T.in.bad[i]]))
         /\ ph' = "solved" /\ UNCHANGED l
\* ---- the covariance: 9 intrinsics, then six components for every usable image ----
Cols == 9 + 6 * Len(Good)
\* the pixel is linear in every intrinsic parameter
IntrD(k, q) == LET a == Strict(DProject(k, q)) IN
  Strict([n \in 1..9 |-> LET b == Strict(DProject([k EXCEPT ![n] = RAdd(@, ROne)], q)) IN << RSub(b[1], a[1]), RSub(b[2], a[2]) >>])
\* derivative of the pixel along the direction v of the point
AlongD(k, q, v) == LET a == Strict(DProject(k, VAdd(q, VScale(Hd, v)))) b == Strict(DProject(k, VSub(q, VScale(Hd, v)))) w == RMul(RInt(2), Hd) IN
                   << Rd30(RDiv(RSub(a[1], b[1]), w)), Rd30(RDiv(RSub(a[2], b[2]), w)) >>
RowsOf(k, i, pose, turn, f) ==
  LET q == Strict([m \in 1..3 |-> Rd40(MPApply(pose, f.p)[m])])
      kd == IntrD(k, q)
      px == AlongD(k, q, E3(1)) py == AlongD(k, q, E3(2)) pz == AlongD(k, q, E3(3))
      pd(m) == LET v == IF m <= 3 THEN MVec(turn[m], f.p) ELSE E3(m - 3) IN
               [r \in 1..2 |-> RAdd(RMul(px[r], v[1]), RAdd(RMul(py[r], v[2]), RMul(pz[r], v[3])))]
      ps == Strict([m \in 1..6 |-> pd(m)])
  IN [r \in 1..2 |-> [n \in 1..Cols |-> Rd30(IF n <= 9 THEN kd[n][r] ELSE IF (n - 10) \div 6 = i - 1 THEN ps[((n - 10) % 6) + 1][r] ELSE RZero)]]
IntrJ(k, poses, turns) ==
  LET RECURSIVE Feats(_, _, _) 
      Feats(i, im, a) == IF a = 0 THEN <<>> ELSE Feats(i, im, a - 1) \o RowsOf(k, i, poses[i], turns[i], im[a])
      RECURSIVE Imgs(_)
      Imgs(i) == IF i = 0 THEN <<>> ELSE LET im == Strict(Img(Good[i])) IN Imgs(i - 1) \o Feats(i, im, Len(im))
  IN Strict(Imgs(Len(Good)))
INames == LET ks == <<"fx", "fy", "cx", "cy", "k1", "k2", "p1", "p2", "k3">> IN
   [n \in 1..Cols |-> IF n <= 9 THEN ks[n] ELSE T.in.label \o ToString(Good[((n - 10) \div 6) + 1] - 1) \o "_" \o Axes[((n - 10) % 6) + 1]]
CostIs(r, e) == RIsNum(r) /\ RLe(RAbs(RSub(Num(r), e)), RAdd(RMul(RParse("1e-7"), e), RParse("1e-12")))
\* no small change of one of the pinhole parameters lowers the cost of a converged estimate noticeably
LocalMin(k, poses, imgs, cost) ==
  LET floor == RSub(RMul(cost, RParse("0.98")), RParse("1e-9")) IN
  \A n \in 1..4 : \A s \in {-1, 1} : RLe(floor, IntrCost([k EXCEPT ![n] = RAdd(@, RInt(s))], poses, imgs))
Report ==
  /\ ph = "solved"
  /\ TRUE = (LET k == NumV(T.out.k)
                 poses == Strict([i \in 1..Len(Good) |-> ReadMPose(T.out.poses[Good[i]])])
                 imgs == Strict([i \in 1..Len(Good) |-> Img(Good[i])])
                 cost == Strict(IntrCost(k, poses, imgs)) IN
             /\ Clause(T.id, "a reported pose is not a rigid transform", \A i \in 1..Len(Good) : IsRotation(poses[i].m, RParse("1e-9")))
             /\ Clause(T.id, "final cost is not the cost of the returned estimate", CostIs(T.out.final, cost))
             /\ Clause(T.id, "final cost exceeds initial cost", RIsNum(T.out.init) /\ RLe(Num(T.out.final), RMul(Num(T.out.init), RParse("1.000000001"))))
             /\ Clause(T.id, "convergence flag contradicts the solve", Len(T.out.solves) > 0 => (T.out.converged <=> T.out.solves[Len(T.out.solves)].term = 0))
             /\ MODE = "C04" /\ T.out.converged => Clause(T.id, "converged away from a minimum", LocalMin(k, poses, imgs, cost))
             /\ MODE = "C14" => Clause(T.id, "the covariance does not name every parameter once",
                     LET sd == T.out.cov.sd names == Strict(INames) IN
                     Len(sd) = Cols /\ { sd[i].a : i \in 1..Len(sd) } = { names[i] : i \in 1..Cols })
             /\ MODE = "C14" /\ Len(Good) >= 4 =>
                  /\ Clause(T.id, "noise-free images did not converge", T.out.converged)
                  /\ Clause(T.id, "noise-free images left a residual", RLe(cost, RParse("1e-9")))
                  /\ Clause(T.id, "intrinsics differ from those that made the images", \A n \in 1..4 : RNearRel(k[n], Truth[n], RParse("1e-5")))
                  /\ Clause(T.id, "distortion differs from the one that made the images", \A n \in 5..9 : RNear(k[n], Truth[n], RParse("1e-3")))
                  /\ Clause(T.id, "a pose differs from the one the image was made from",
                            \A i \in 1..Len(Good) : MPNear(poses[i], PM(ReadPose(T.in.tposes[Good[i]])), RParse("1e-5"), RParse("1e-5")))
             /\ MODE = "C08" =>
                  LET rs == Strict([i \in 1..Len(Good) |-> NumV(T.out.turns[Good[i]])]) IN
                  /\ Clause(T.id, "harness: the rotation vectors do not stand for the estimate",
                            \A i \in 1..Len(Good) : MNear(AxisAngle(rs[i]), poses[i].m, RParse("1e-12")) /\ RLt(VSq(rs[i]), RParse("9.5")))
                  /\ LET J == IntrJ(k, poses, Strict([i \in 1..Len(Good) |-> TurnDs(rs[i])])) IN
                     ByName(T.id, T.out.cov, Strict(INames), CovOf(J, Cols, [n \in 1..Cols |-> n], Rd40), RParse("1e-4")))
  /\ Accept(T.id) /\ ph' = "end" /\ UNCHANGED l
Next == Lost \/ Refuse \/ Solve \/ Report
Spec == Init /\ [][Next]_vars
=============================================================================
