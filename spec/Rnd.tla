-------------------------------- MODULE Rnd --------------------------------
(***************************************************************************)
(* Deterministic choices.  Scenario generators draw every choice from a    *)
(* state variable that holds a small number (the scenario's stream) mixed  *)
(* with the index of the draw, so a behaviour is a function of (SEED, sid) *)
(* alone and can be regenerated exactly.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences

P == 46337   \* prime; (P-1)^2 fits TLC's 32-bit integers

Mix(s, k) == LET a == ((s % P) + 1 + ((k % 9973) * 3) + 11) % P
                 b == (a * a + 12345) % P
                 c == ((b * (a + 7)) + (k % 9973)) % P
                 d == (c * c + b) % P
             IN  (d * ((c % 40000) + 3) + a) % P

\* k-th draw of stream s from lo..hi
Draw(s, k, lo, hi) == lo + (Mix(s, k) % (hi - lo + 1))
\* k-th draw of stream s from a sequence
Pick(s, k, seq) == seq[1 + (Mix(s, k) % Len(seq))]
\* a biased coin: true with probability n in 100
Coin(s, k, n) == Mix(s, k) % 100 < n
\* pseudo-random permutation of 1..n (selection by repeated draws)
RECURSIVE PermFrom(_, _, _)
PermFrom(s, k, rest) ==
    IF rest = <<>> THEN <<>>
    ELSE LET i == 1 + (Mix(s, k) % Len(rest))
             left == SubSeq(rest, 1, i - 1) \o SubSeq(rest, i + 1, Len(rest))
         IN  <<rest[i]>> \o PermFrom(s, k + 1, left)
Perm(s, k, n) == PermFrom(s, k, [i \in 1..n |-> i])
=============================================================================
