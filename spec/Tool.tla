-------------------------------- MODULE Tool --------------------------------
(***************************************************************************)
(* The calibration tools: programs that read parameters and data sets,     *)
(* look for the target in every picture, hand what was found to a solver   *)
(* and report what it answered.                                            *)
(*                                                                         *)
(* R, a run:                                                               *)
(*   tool    "wrist" | "static"           one camera, extrinsic            *)
(*           "moving" | "steps"           several cameras, at once/in two  *)
(*                                        steps                            *)
(*           "intr" | "valid" | "noise"   one camera, intrinsic            *)
(*           "pnp" | "mpnp"               the pose of a target             *)
(*   thr     how much a view may differ from a homography: "none" (no view *)
(*           is good enough), "some" (true views are), "all"               *)
(*   pics    what there is to find in a picture, by its code:              *)
(*           [how, seen, clean]; seen is a set of [u, x], clean says that  *)
(*           it is a true view                                             *)
(*   cams    [intr, guess, state, entries]; an entry is a picture and the  *)
(*           pose of the tool when it was taken: [code, pose, gone]        *)
(*   tguess  the guess of where the target is                              *)
(*   damaged a parameter is missing or malformed                           *)
(*   fail    which solve fails (-1: none)                                  *)
(*   ca, ta, tb, a, b, pnps, heads, nums   what the solvers answer         *)
(*                                                                         *)
(* A run goes refused | looking -> solving -> reporting -> over.           *)
(***************************************************************************)
EXTENDS Geom
Single == {"wrist", "static", "intr", "valid", "noise", "pnp"}
HandEye == {"wrist", "static"}
Homographic(R, p) == Cardinality(p.seen) >= 12 /\ (R.thr = "all" \/ (R.thr = "some" /\ (p.clean \/ p.near)))
\* a picture is used if the target is found in it
Usable(R, code) == LET p == R.pics[code] IN p.how = "found" /\ (R.tool \in HandEye => Homographic(R, p))
Readable(R, c) == SelectSeq(R.cams[c].entries, LAMBDA e : ~e.gone)
Used(R, c) == SelectSeq(Readable(R, c), LAMBDA e : Usable(R, e.code))
NCam(R) == Len(R.cams)
Found(R, c, i) == Usable(R, R.cams[c].entries[i].code)
Images(R) == Len(R.cams[1].entries)
\* the cameras that found the target in the ith picture, and the pictures in which some or all found it
Finders(R, i) == SelectSeq([c \in 1..NCam(R) |-> c], LAMBDA c : Found(R, c, i))
Shared(R) == SelectSeq([i \in 1..Images(R) |-> i], LAMBDA i : Len(Finders(R, i)) >= 2)
Common(R) == SelectSeq([i \in 1..Images(R) |-> i], LAMBDA i : Len(Finders(R, i)) = NCam(R))
\* ---- what ends a run before anything is solved ----
Unstartable(R) == R.damaged \/ \E c \in 1..NCam(R) : R.cams[c].state # "ok"
NothingFound(R) == CASE R.tool \in Single -> Used(R, 1) = <<>>
                     [] R.tool = "moving" -> \A c \in 1..NCam(R) : Used(R, c) = <<>>
                     [] R.tool = "steps" -> Common(R) = <<>>
                     [] R.tool = "mpnp" -> FALSE
\* ---- the problems ----
None == <<>>
Problem(kind, intr, cam, tgt, obs) == [kind |-> kind, intr |-> intr, cam |-> cam, tgt |-> tgt, base |-> None, thr |-> RZero, fix |-> FALSE, obs |-> obs, loose |-> FALSE]
View(c, i, cm, tm, code) == [c |-> c, i |-> i, cm |-> cm, tm |-> tm, code |-> code]
Id == << MPId >>
\* poses of the mounts of camera and target when a picture was taken
CamMount(R, e) == IF R.tool \in {"wrist", "valid"} THEN e.pose ELSE MPId
TgtMount(R, e) == IF R.tool = "static" THEN e.pose ELSE MPId
\* where the target is for the camera, by the result
Calibrated(R, e) == MPMul(MPInv(R.ca), MPMul(MPInv(CamMount(R, e)), MPMul(TgtMount(R, e), R.ta)))
Calib1(R, kind) == LET u == Used(R, 1) IN
   Problem(kind, <<R.cams[1].intr>>, <<R.cams[1].guess>>, <<R.tguess>>, [k \in 1..Len(u) |-> View(1, k, <<CamMount(R, u[k])>>, <<TgtMount(R, u[k])>>, u[k].code)])
Pnp1(R, guess, code) == Problem("pnp", <<R.cams[1].intr>>, None, <<guess>>, <<View(1, 1, None, None, code)>>)
Plain(R, kind) == LET u == Used(R, 1) IN Problem(kind, <<R.cams[1].intr>>, None, None, [k \in 1..Len(u) |-> View(1, k, None, None, u[k].code)])
Intrs(R) == [c \in 1..NCam(R) |-> R.cams[c].intr]
Guesses(R) == [c \in 1..NCam(R) |-> R.cams[c].guess]
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Cat(Tail(s))
\* observations by camera: of the pictures of each, or of the pictures all share
Own(R) == Cat([c \in 1..NCam(R) |-> LET u == Used(R, c) IN [k \in 1..Len(u) |-> View(c, k, None, <<u[k].pose>>, u[k].code)]])
OfAll(R, mounted) == LET s == Common(R) IN Cat([c \in 1..NCam(R) |-> [k \in 1..Len(s) |-> View(c, k, None, IF mounted THEN <<R.cams[1].entries[s[k]].pose>> ELSE None, R.cams[c].entries[s[k]].code)]])
\* the pose of the target by all cameras F that found it in picture i
Together(R, F, at, i, guess, loose) ==
   [Problem("mpnp", [k \in 1..Len(F) |-> R.cams[F[k]].intr], [k \in 1..Len(F) |-> at[F[k]]], <<guess>>, [k \in 1..Len(F) |-> View(k, 1, None, None, R.cams[F[k]].entries[i].code)]) EXCEPT !.loose = loose]
Agree(R, i) == \A c \in 1..NCam(R) : R.cams[c].entries[i].pose = R.cams[1].entries[i].pose
All(R) == [c \in 1..NCam(R) |-> c]
Mid(R) == R.cams[1].entries
\* a tenth of a metre ahead, facing the camera
Facing == [m |-> << VInt(1, 0, 0), VInt(0, -1, 0), VInt(0, 0, -1) >>, t |-> <<RZero, RZero, RFrac(1, 10)>>]
\* in each picture that is compared, the pose of the target by the calibration
Compared(R) == CASE R.tool = "moving" -> LET s == Shared(R) IN [k \in 1..Len(s) |-> [i |-> s[k], f |-> Finders(R, s[k]), at |-> R.a, pose |-> MPMul(Mid(R)[s[k]].pose, R.ta), loose |-> ~Agree(R, s[k])]]
                 [] R.tool = "steps" -> LET s == Common(R) IN [k \in 1..Len(s) |-> [i |-> s[k], f |-> All(R), at |-> R.b, pose |-> MPMul(Mid(R)[s[k]].pose, R.tb), loose |-> FALSE]]
                 [] R.tool = "mpnp" -> LET s == Common(R) IN [k \in 1..Len(s) |-> [i |-> s[k], f |-> All(R), at |-> Guesses(R), pose |-> Mid(R)[s[k]].pose, loose |-> FALSE]]
                 [] OTHER -> <<>>
Comparisons(R) == LET x == Compared(R) IN [k \in 1..Len(x) |-> Together(R, x[k].f, x[k].at, x[k].i, x[k].pose, x[k].loose)]
Problems(R) ==
  CASE R.tool \in HandEye -> LET u == Used(R, 1) IN <<Calib1(R, "hand_eye")>> \o [k \in 1..Len(u) |-> Pnp1(R, Calibrated(R, u[k]), u[k].code)]
    [] R.tool = "valid" -> << [Calib1(R, "valid") EXCEPT !.base = Id, !.thr = ROne] >>
    [] R.tool = "intr" -> << Plain(R, "cvintr"), Plain(R, "intr") >>
    [] R.tool = "noise" -> LET u == Used(R, 1) IN << [Plain(R, "noise") EXCEPT !.intr = [k \in 1..Len(u) |-> R.cams[1].intr], !.tgt = [k \in 1..Len(u) |-> R.tguess]] >>
    [] R.tool = "pnp" -> LET u == Used(R, 1) IN << Problem("cvpnp", <<R.cams[1].intr>>, None, None, <<View(1, 1, None, None, u[1].code)>>), Pnp1(R, Facing, u[1].code) >>
    [] R.tool = "moving" -> << Problem("moving", Intrs(R), Guesses(R), <<R.tguess>>, Own(R)) >> \o Comparisons(R)
    [] R.tool = "steps" -> LET s == Common(R) IN
         << [Problem("only", Intrs(R), Guesses(R), [k \in 1..Len(s) |-> MPMul(Mid(R)[s[k]].pose, R.tguess)], OfAll(R, FALSE)) EXCEPT !.fix = R.fix],
            Problem("wrist_only", Intrs(R), R.a, <<R.tguess>>, OfAll(R, TRUE)) >> \o Comparisons(R)
    [] R.tool = "mpnp" -> Comparisons(R)
Fails(R) == R.fail >= 0 /\ R.fail < Len(Problems(R))
Good(R) == ~Unstartable(R) /\ ~NothingFound(R) /\ ~Fails(R)
\* ---- what is shown: the pictures in which the result is compared with what was seen ----
ShownPics(R) == IF R.tool \in HandEye THEN LET u == Used(R, 1) IN [k \in 1..Len(u) |-> u[k].code]
                ELSE LET x == Compared(R) IN
                     [k \in 1..Len(x) |-> R.cams[x[k].f[1]].entries[x[k].i].code]
\* ---- what is printed: transforms under their headings; n are the numbers in the heading ----
Block(w, n, pose) == [w |-> w, n |-> n, pose |-> pose, loose |-> FALSE]
Cameras(a, base, rel, withBase) == Cat([c \in 1..Len(a) |-> << Block(base, <<c - 1>>, a[c]), Block(rel, IF withBase THEN <<0, c - 1>> ELSE <<c - 1>>, MPMul(MPInv(a[1]), a[c])) >>])
\* the camera in whose frame a comparison is given: the first that found the target
First(R, x) == x.f[1] - 1
Seen1(R, x) == MPMul(MPInv(x.at[x.f[1]]), x.pose)
Answered(R, x, k) == MPMul(MPInv(x.at[x.f[1]]), R.pnps[1 + ((k - 1) % Len(R.pnps))])
Blocks(R) ==
  CASE R.tool = "wrist" -> << Block("WRIST TO CAMERA:", <<>>, R.ca), Block("BASE TO TARGET:", <<>>, R.ta) >>
    [] R.tool = "static" -> << Block("BASE TO CAMERA:", <<>>, R.ca), Block("WRIST TO TARGET:", <<>>, R.ta) >>
    [] R.tool = "pnp" -> << Block("OPENCV SOLVEPNP:", <<>>, R.ta), Block("RCT CAMERA TO TARGET:", <<>>, R.pnps[1]) >>
    [] R.tool = "moving" -> << Block("WRIST TO TARGET:", <<>>, R.ta) >> \o Cameras(R.a, "BASE TO CAMERA (CAMERA #):", "CAMERA # TO CAMERA (CAMERA #):", TRUE)
                            \o (LET x == Compared(R) IN Cat([k \in 1..Len(x) |-> << [Block("CAMERA # TO TARGET:", <<First(R, x[k])>>, Seen1(R, x[k])) EXCEPT !.loose = x[k].loose], Block("PNP:", <<>>, Answered(R, x[k], k)) >>]))
    [] R.tool = "steps" -> Cameras(R.a, "BASE TO CAMERA (CAMERA #):", "CAMERA # TO CAMERA #:", TRUE) \o Cameras(R.b, "BASE TO CAMERA (CAMERA #):", "CAMERA # TO CAMERA #:", TRUE)
                           \o << Block("WRIST TO TARGET:", <<>>, R.tb) >>
                           \o (LET x == Compared(R) IN [k \in 1..Len(x) |-> Block("CAMERA # TO TARGET:", <<First(R, x[k])>>, Seen1(R, x[k]))])
    [] R.tool = "mpnp" -> LET x == Compared(R) IN Cat([k \in 1..Len(x) |-> << Block("BASE TO TARGET:", <<>>, x[k].pose), Block("PNP:", <<>>, R.pnps[1 + ((k - 1) % Len(R.pnps))]) >>])
    [] OTHER -> <<>>
Headings(R) == {"WRIST TO CAMERA:", "BASE TO TARGET:", "BASE TO CAMERA:", "WRIST TO TARGET:", "OPENCV SOLVEPNP:", "RCT CAMERA TO TARGET:", "BASE TO CAMERA (CAMERA #):",
                "CAMERA # TO CAMERA (CAMERA #):", "CAMERA # TO CAMERA #:", "CAMERA # TO TARGET:"} \cup (IF R.tool = "steps" THEN {} ELSE {"PNP:"})
\* the solves whose outcome is printed, by their number in the script
HeadAt(R, k) == R.heads[1 + (k % Len(R.heads))]
Reported(R) == CASE R.tool \in HandEye \/ R.tool = "intr" -> << HeadAt(R, 0) >>
                 [] R.tool = "moving" -> << HeadAt(R, 0) >> \o [k \in 1..Len(Compared(R)) |-> HeadAt(R, k + 1)]
                 [] R.tool = "steps" -> << HeadAt(R, 0), HeadAt(R, 1) >> \o [k \in 1..Len(Compared(R)) |-> HeadAt(R, k + 1)]
                 [] R.tool \in {"mpnp", "pnp"} -> [k \in 1..(IF R.tool = "pnp" THEN 1 ELSE Len(Compared(R))) |-> HeadAt(R, k + 1)]
                 [] OTHER -> <<>>
\* pairs of poses whose difference is printed
Diffs(R) == LET x == Compared(R) IN
   [k \in 1..Len(x) |-> [loose |-> x[k].loose, one |-> IF R.tool = "mpnp" THEN x[k].pose ELSE Seen1(R, x[k]),
                         two |-> IF R.tool = "mpnp" THEN R.pnps[1 + ((k - 1) % Len(R.pnps))] ELSE Answered(R, x[k], k)]]
\* the verdict on a camera: almost all of the errors are within a millimetre and a twentieth of a degree
TwentiethDegree == RMul(RParse("3.14159265358979323846"), RFrac(1, 3600))
Within(R) == /\ RLe(RAdd(R.nums[10], RMul(RInt(2), R.nums[11])), RFrac(1, 1000))
             /\ RLe(RAdd(R.nums[12], RMul(RInt(2), R.nums[13])), TwentiethDegree)
=============================================================================
