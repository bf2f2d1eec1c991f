------------------------------- MODULE Draws --------------------------------
(***************************************************************************)
(* What scenario generators share: draws from the two streams of scenario  *)
(* s, and the poses, cameras and numbers built from them.                  *)
(***************************************************************************)
EXTENDS Geom, Rnd, Json
CONSTANTS SEED, N

St(s) == Mix((SEED * 7919 + s * 104729) % 2000003, s)
D(s, k, lo, hi) == lo + ((Mix(St(s), k) + Mix(St(s + 5000), k + 77)) % (hi - lo + 1))
C(s, k, n) == D(s, k, 0, 99) < n
PickD(s, k, seq) == seq[D(s, k, 1, Len(seq))]
\* n/d for a drawn n
F(s, k, lo, hi, d) == RFrac(D(s, k, lo, hi), d)
V3(s, k, r, d) == << F(s, k, -r, r, d), F(s, k + 1, -r, r, d), F(s, k + 2, -r, r, d) >>

\* quaternions: identity, half and quarter turns, tiny turns, near half turns and anything
DrawQ(s, k) ==
  LET style == D(s, k, 0, 15)
      a == D(s, k+1, -4, 4) b == D(s, k+2, -4, 4) c == D(s, k+3, -4, 4) d == D(s, k+4, -4, 4)
  IN  CASE style = 0 -> QId
        [] style = 1 -> PickD(s, k + 1, << QInt(0,1,0,0), QInt(0,0,1,0), QInt(0,0,0,1), QInt(0,1,1,0), QInt(0,1,-2,2) >>)
        [] style = 2 -> PickD(s, k + 1, << QInt(1,0,0,1), QInt(1,1,0,0), QInt(1,0,-1,0), QInt(1,1,1,1), QInt(-1,1,-1,1) >>)
        [] style = 3 -> QInt(PickD(s, k + 5, <<100, 1000, 100000, 10000000>>), b, c, IF d = 0 THEN 1 ELSE d)
        [] style = 4 -> <<RFrac(a, PickD(s, k + 5, <<100, 1000, 100000>>)), RInt(b), RInt(c), RInt(IF d = 0 THEN 3 ELSE d)>>
        [] OTHER -> IF <<a, b, c, d>> = <<0, 0, 0, 0>> THEN QInt(2, 1, -1, 1) ELSE QInt(a, b, c, d)
DrawPose(s, k, r) == Pose(DrawQ(s, k), V3(s, k + 6, r, 20))
DrawIntr(s, k) == << RInt(D(s, k, 450, 900)), RInt(D(s, k+1, 450, 900)), F(s, k+2, 600, 700, 2), F(s, k+3, 400, 500, 2) >>

Dec(v) == [k \in 1..Len(v) |-> RDec(v[k])]
DecPose(p) == [q |-> Dec(p.q), t |-> Dec(p.t)]
DecSeq(vs) == [k \in 1..Len(vs) |-> Dec(vs[k])]
\* how many of the scenarios of a mode come before s
=============================================================================
