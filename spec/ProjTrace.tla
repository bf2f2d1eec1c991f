----------------------------- MODULE ProjTrace ------------------------------
(* asked -> answered: every projection call against the pinhole model. *)
EXTENDS Proj, TraceIO
VARIABLES l, ph
vars == <<l, ph>>
T == Trace[l]
K == NumV(T.in.intr)
PosV(vs) == [k \in 1..Len(vs) |-> NumV(vs[k])]
Tol == RParse("1e-9")
\* a pixel within rounding of the exact one
PixelIs(o, e) == /\ Len(o) = 2 /\ FiniteSeq(o)
                 /\ RNearRel(Num(o[1]), e[1], Tol) /\ RNearRel(Num(o[2]), e[2], Tol)
PointIs(o, e) == /\ Len(o) = 3 /\ FiniteSeq(o) /\ \A i \in 1..3 : RNear(Num(o[i]), e[i], RMul(Tol, RAdd(ROne, RMul(RInt(10), VSq(e)))))
XM == PM(ReadPose(T.in.x))
ChainOf(o) == MPMul(MPInv(PM(ReadPose(T.in.cam))), MPMul(MPInv(PM(ReadPose(o.cm))), MPMul(PM(ReadPose(o.tm)), PM(ReadPose(T.in.tgt)))))
\* rays along the plane are produced exactly or not at all
Along(k, X, u) == RLt(Grazing(k, X, u), RParse("1e-18"))
ObsPix == UNION {{<<i, j>> : j \in 1..Len(T.in.obs[i].feats)} : i \in 1..Len(T.in.obs)}
MustFail == CASE T.op = "plane" -> RLt(RAbs(Facing(NumV(T.in.n), NumV(T.in.l))), RParse("1e-9"))
              [] T.op = "back" -> LET X == Strict(XM) k == K IN \E j \in 1..Len(T.in.pix) : Along(k, X, NumV(T.in.pix[j]))
              [] T.op = "err3d" -> LET k == K IN \E ij \in ObsPix : Along(k, ChainOf(T.in.obs[ij[1]]), NumV(T.in.obs[ij[1]].feats[ij[2]].o))
              [] OTHER -> FALSE
Init == l \in 1..Len(Trace) /\ ph = "asked"
Answered == ph = "asked" /\ T.out.status = "ok" /\ ph' = "answered" /\ UNCHANGED l
Lost == ph = "asked" /\ T.out.status \notin {"ok", "throw"} /\ Clause(T.id, "did not return: " \o T.out.status, FALSE) /\ UNCHANGED vars
Refused == /\ ph = "asked" /\ T.out.status = "throw"
           /\ Clause(T.id, "failed although every ray meets the plane", MustFail)
           /\ Accept(T.id) /\ ph' = "end" /\ UNCHANGED l
\* every list of projections is one projection per point, in order
Listed(name, o, e) == Clause(T.id, name \o ": one result per point", Len(o) = Len(e)) /\ \A k \in 1..Len(e) : Clause(T.id, name \o ": wrong pixel", PixelIs(o[k], e[k]))
Forward == /\ ph = "answered" /\ T.op = "project"
           /\ TRUE = (LET e == Strict([k \in 1..Len(T.in.pts) |-> Project(K, NumV(T.in.pts[k]))]) IN
                      /\ Listed("array form", T.out.a, e) /\ Listed("vector form", T.out.b, e) /\ Listed("derivative array form", T.out.c, e) /\ Listed("derivative vector form", T.out.d, e))
           /\ Accept(T.id) /\ ph' = "end" /\ UNCHANGED l
Target == /\ ph = "answered" /\ T.op = "reproj"
          /\ TRUE = (LET X == Strict(XM) e == Strict([k \in 1..Len(T.in.pts) |-> Project(K, MPApply(X, NumV(T.in.pts[k])))]) IN Listed("reprojection", T.out.pix, e))
          /\ Accept(T.id) /\ ph' = "end" /\ UNCHANGED l
Plane == /\ ph = "answered" /\ T.op = "plane"
         /\ Clause(T.id, "a line along the plane was met", ~MustFail)
         /\ TRUE = (LET n == NumV(T.in.n) e == Meet(n, NumV(T.in.p), NumV(T.in.l), NumV(T.in.a)) IN
                    Clause(T.id, "not where the line meets the plane", PointIs(T.out.x, e)))
         /\ Accept(T.id) /\ ph' = "end" /\ UNCHANGED l
Back == /\ ph = "answered" /\ T.op = "back"
        /\ Clause(T.id, "a ray along the plane was met", ~MustFail)
        /\ Clause(T.id, "one point per pixel", Len(T.out.pts) = Len(T.in.pix))
        /\ TRUE = (LET X == Strict(XM) k == K IN \A j \in 1..Len(T.in.pix) : Clause(T.id, "not the point of the plane that the pixel sees", PointIs(T.out.pts[j], Strict(BackProject(k, X, NumV(T.in.pix[j]))))))
        /\ Accept(T.id) /\ ph' = "end" /\ UNCHANGED l
\* the error of every feature of one observation, in order
ErrsOf(o) == LET X == Strict(ChainOf(o)) k == K IN
             [j \in 1..Len(o.feats) |-> LET b == Strict(BackProject(k, X, NumV(o.feats[j].o))) IN RSqrt(RRound(VSq(VSub(b, NumV(o.feats[j].p))), RParse("1000000000000000000000000000000000000")))]
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
ErrIs(o, e) == RIsNum(o) /\ RLe(RAbs(RSub(Num(o), e)), RMul(RParse("1e-8"), RAdd(RInt(5), RMul(RInt(10), e))))
Error == /\ ph = "answered" /\ T.op = "err3d"
         /\ Clause(T.id, "a ray along the plane was met", ~MustFail)
         /\ TRUE = (LET es == Strict([i \in 1..Len(T.in.obs) |-> ErrsOf(T.in.obs[i])]) all == Flat(es) IN
                    /\ Clause(T.id, "one error per feature of every observation", Len(T.out.all) = Len(all) /\ Len(T.out.each) = Len(es))
                    /\ \A k \in 1..Len(all) : Clause(T.id, "set error is not the distance to the back-projected pixel", ErrIs(T.out.all[k], all[k]))
                    /\ \A i \in 1..Len(es) : /\ Clause(T.id, "one error per feature", Len(T.out.each[i]) = Len(es[i]))
                                             /\ \A k \in 1..Len(es[i]) : Clause(T.id, "error is not the distance to the back-projected pixel", ErrIs(T.out.each[i][k], es[i][k])))
         /\ Accept(T.id) /\ ph' = "end" /\ UNCHANGED l
Next == Answered \/ Lost \/ Refused \/ Forward \/ Target \/ Plane \/ Back \/ Error
Spec == Init /\ [][Next]_vars
=============================================================================
