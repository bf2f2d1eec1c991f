------------------------------ MODULE ProjGen -------------------------------
(***************************************************************************)
(* A camera is drawn, a plane is posed in front of it, points are placed   *)
(* on it one by one and seen by the camera, and the projections are asked  *)
(* for: forwards (single points, a whole target) and backwards (a line and *)
(* a plane, pixels on a posed plane, the 3D error of observations).        *)
(***************************************************************************)
EXTENDS Proj, Draws
VARIABLES sid, phase, intr, X, pts, pix, obs
vars == <<sid, phase, intr, X, pts, pix, obs>>
Kind(s) == <<"project", "reproj", "plane", "back", "err3d", "back", "err3d">>[1 + (s % 7)]
NPts(s) == IF D(s, 2, 0, 19) = 0 THEN 0 ELSE D(s, 1, 1, 7)
Planar(s) == Kind(s) \in {"back", "err3d"}
\* one scenario in six of the backward kinds holds a pixel whose ray runs along the plane
Parallel(s) == Kind(s) \in {"plane", "back", "err3d"} /\ D(s, 3, 0, 5) = 0 /\ NPts(s) > 0
\* a quarter turn about x or y: the plane contains the viewing direction of the principal point
EdgeOn(s) == PickD(s, 4, << QInt(1,1,0,0), QInt(1,0,-1,0), QInt(1,0,1,0), QInt(1,-1,0,0) >>)

Init == sid \in 1..N /\ phase = "start" /\ intr = <<>> /\ X = <<>> /\ pts = <<>> /\ pix = <<>> /\ obs = <<>>
SetUp ==
  /\ phase = "start"
  /\ intr' = Strict(DrawIntr(sid, 10))
  /\ X' = Strict(Pose(IF Parallel(sid) THEN EdgeOn(sid) ELSE DrawQ(sid, 20),
                << F(sid, 30, -20, 20, 20), F(sid, 31, -20, 20, 20), F(sid, 32, 12, 60, 20) >>))
  /\ phase' = "points" /\ UNCHANGED <<sid, pts, pix, obs>>
XM == PM(X)
PointAt(k) ==
  LET depth == D(sid, 40 + k, 0, 9)
      z == CASE Kind(sid) # "project" -> F(sid, 50 + k, -9, 9, 20)
             [] depth = 0 -> RZero
             [] depth < 5 -> F(sid, 50 + k, 1, 40, 10)
             [] depth = 5 -> F(sid, 50 + k, 1, 9, 1000000)
             [] OTHER -> RNeg(F(sid, 50 + k, 1, 40, 10))
  IN << F(sid, 60 + k, -30, 30, 40), F(sid, 70 + k, -30, 30, 40), IF Planar(sid) THEN RZero ELSE z >>
\* pixels of the edge-on scenarios: the last one is seen along the plane
PixelOf(k, p) ==
  IF Parallel(sid) /\ k = NPts(sid) THEN << intr[3], intr[4] >>
  ELSE IF Parallel(sid) THEN << RAdd(intr[3], F(sid, 80 + k, 40, 200, 1)), RAdd(intr[4], F(sid, 90 + k, 40, 200, 1)) >>
  ELSE LET q == MPApply(XM, p) IN
       IF Kind(sid) = "err3d" THEN LET e == Project(intr, q) IN << RRound(RAdd(e[1], F(sid, 80 + k, -40, 40, 10)), RInt(1000)), RRound(RAdd(e[2], F(sid, 90 + k, -40, 40, 10)), RInt(1000)) >>
       ELSE Project(intr, q)
\* rays that nearly graze the plane, and depths that nearly vanish, say nothing about correctness
Clear(p, u) == IF Planar(sid) /\ ~Parallel(sid)
               THEN /\ RLt(RFrac(1, 400), Grazing(intr, XM, u))
                    /\ RLt(RFrac(1, 20), RAbs(MPApply(XM, p)[3]))
               ELSE Kind(sid) = "reproj" => RLt(RFrac(1, 1000), RAbs(MPApply(XM, p)[3]))
Place ==
  /\ phase = "points"
  /\ IF NPts(sid) = 0 THEN UNCHANGED <<pts, pix>>
     ELSE LET k == Len(pts) + 1
              p == Strict(PointAt(k))
              u == IF Kind(sid) = "project" THEN <<>> ELSE Strict(PixelOf(k, p))
          IN  IF (Kind(sid) \in {"project", "plane"} \/ Clear(p, u)) = TRUE
              THEN pts' = Append(pts, p) /\ pix' = Append(pix, u)
              ELSE pts' = Append(pts, <<>>) /\ pix' = Append(pix, <<>>)
  /\ phase' = IF NPts(sid) = 0 \/ Len(pts') = NPts(sid) THEN "observe" ELSE "points"
  /\ UNCHANGED <<sid, intr, X, obs>>
Used == SelectSeq([k \in 1..Len(pts) |-> k], LAMBDA k : pts[k] # <<>>)
\* the features are dealt to observations whose mounts lead to the same camera-to-target pose
NObs(s) == IF Kind(s) = "err3d" THEN D(s, 5, 1, 3) ELSE 1
Cam == DrawPose(sid, 100, 20)
Tgt == DrawPose(sid, 110, 20)
ObsAt(i) ==
  LET cm == DrawPose(sid, 120 + 12*i, 20)
  IN [cm |-> DecPose(cm), tm |-> DecPose(PMul(cm, PMul(Cam, PMul(X, PInv(Tgt))))),
      feats |-> LET mine == SelectSeq(Used, LAMBDA k : 1 + (D(sid, 160 + k, 0, 999) % NObs(sid)) = i)
                IN  [j \in 1..Len(mine) |-> [o |-> Dec(pix[mine[j]]), p |-> Dec(pts[mine[j]])]]]
Observe ==
  /\ phase = "observe"
  /\ obs' = IF Kind(sid) = "err3d" THEN Strict([i \in 1..NObs(sid) |-> ObsAt(i)]) ELSE <<>>
  /\ phase' = "ready" /\ UNCHANGED <<sid, intr, X, pts, pix>>
UnitQ == PickD(sid, 200, << <<3,4,5>>, <<5,12,13>>, <<8,15,17>>, <<0,1,1>>, <<1,0,1>> >>)
UnitV(k) == LET a == PickD(sid, k, << <<3,4,5>>, <<5,12,13>>, <<-8,15,17>>, <<0,1,1>>, <<1,0,1>>, <<7,-24,25>> >>)
                b == PickD(sid, k+1, << <<3,4,5>>, <<12,-5,13>>, <<8,15,17>>, <<0,1,1>>, <<-1,0,1>> >>)
                c == RFrac(a[1], a[3]) s == RFrac(a[2], a[3]) d == RFrac(b[1], b[3]) t == RFrac(b[2], b[3])
                v == << RMul(c, d), RMul(s, d), t >>
            IN PickD(sid, k+2, << v, <<v[2], v[3], v[1]>>, <<v[3], v[1], v[2]>> >>)
\* some lines almost run along the plane, and some planes are far away; they meet all the same
Slanting(s) == ~Parallel(s) /\ D(s, 260, 0, 3) = 0
FarOut(v) == IF D(sid, 263, 0, 2) = 0 THEN VScale(RInt(D(sid, 264, 5, 400)), v) ELSE v
LineDir == LET n == UnitV(210) c == Cross(n, UnitV(220)) IN
           IF Parallel(sid) /\ c # VZero THEN c
           ELSE IF Slanting(sid) /\ c # VZero THEN VAdd(c, VScale(RFrac(PickD(sid, 261, <<1, -1>>), PickD(sid, 262, <<100, 1000, 5000, 20000>>)), n)) ELSE UnitV(230)
Base == [id |-> "C06-" \o Kind(sid) \o "-" \o ToString(sid), op |-> Kind(sid)]
DecPts == [j \in 1..Len(Used) |-> Dec(pts[Used[j]])]
DecPix == [j \in 1..Len(Used) |-> Dec(pix[Used[j]])]
Case == CASE Kind(sid) = "project" -> Base @@ [intr |-> Dec(intr), pts |-> DecPts]
          [] Kind(sid) = "reproj" -> Base @@ [intr |-> Dec(intr), x |-> DecPose(X), pts |-> DecPts]
          [] Kind(sid) = "plane" -> Base @@ [n |-> Dec(UnitV(210)), p |-> Dec(FarOut(V3(sid, 240, 30, 20))), l |-> Dec(LineDir), a |-> Dec(V3(sid, 250, 30, 20))]
          [] Kind(sid) = "back" -> Base @@ [intr |-> Dec(intr), x |-> DecPose(X), pix |-> DecPix]
          [] OTHER -> Base @@ [intr |-> Dec(intr), cam |-> DecPose(Cam), tgt |-> DecPose(Tgt), obs |-> obs]
\* a line that is neither clearly crossing nor exactly along the plane is not asked about
Sharp == Kind(sid) = "plane" => LET f == RAbs(Facing(UnitV(210), LineDir)) IN f = RZero \/ RLt(RFrac(1, 25000), f)
Emit == phase = "ready" /\ (Sharp => PrintT("CASE " \o ToJson(Case))) /\ phase' = "done" /\ UNCHANGED <<sid, intr, X, pts, pix, obs>>
Next == SetUp \/ Place \/ Observe \/ Emit
Spec == Init /\ [][Next]_vars
\* ---- what the model promises ----
\* seeing a point of the plane and projecting the pixel back gives the point
Inverse == Kind(sid) = "back" /\ ~Parallel(sid) =>
   \A k \in 1..Len(pts) : pts[k] # <<>> => BackProject(intr, XM, pix[k]) = pts[k]
\* every back-projected pixel lies on the plane and is seen at that pixel
OnPlane == Kind(sid) = "err3d" /\ ~Parallel(sid) =>
   \A k \in 1..Len(pts) : pts[k] # <<>> =>
      LET b == Strict(BackProject(intr, XM, pix[k])) IN b[3] = RZero /\ Project(intr, MPApply(XM, b)) = pix[k]
\* the mount poses of every observation compose to the plane's pose
ChainHolds == phase = "ready" /\ Kind(sid) = "err3d" =>
   \A i \in 1..Len(obs) :
      MPNear(MPMul(MPInv(PM(Cam)), MPMul(MPInv(PM(ReadPose(obs[i].cm))), MPMul(PM(ReadPose(obs[i].tm)), PM(Tgt)))), XM, RParse("1e-20"), RParse("1e-20"))
=============================================================================
