-------------------------------- MODULE Rat --------------------------------
(***************************************************************************)
(* Exact rational arithmetic.                                              *)
(*                                                                         *)
(* The definitions below are ordinary TLA+ (a rational is a normalised     *)
(* pair <<numerator, denominator>>, denominator > 0) and are what the rest *)
(* of the specification means.  TLC's integers are 32 bits wide, so        *)
(* java/Rat.java overrides every operator with a BigInteger implementation *)
(* that represents a rational as the string "n" or "n/d" in lowest terms.  *)
(* No module may look inside a rational: RatSelfTest compares the two      *)
(* implementations on small values.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
IAbs(n) == IF n < 0 THEN -n ELSE n

\* n/d for integers n, d with d # 0
RFrac(n, d) == LET s == IF d < 0 THEN -1 ELSE 1
                   g == Gcd(IAbs(n), IAbs(d))
               IN  << (s * n) \div g, (s * d) \div g >>
RInt(n)     == <<n, 1>>
RAdd(a, b)  == RFrac(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
RSub(a, b)  == RFrac(a[1] * b[2] - b[1] * a[2], a[2] * b[2])
RMul(a, b)  == RFrac(a[1] * b[1], a[2] * b[2])
RDiv(a, b)  == RFrac(a[1] * b[2], a[2] * b[1])
RNeg(a)     == <<-a[1], a[2]>>
RAbs(a)     == <<IAbs(a[1]), a[2]>>
RLt(a, b)   == a[1] * b[2] < b[1] * a[2]
RLe(a, b)   == a[1] * b[2] <= b[1] * a[2]
REq(a, b)   == a = b
RSgn(a)     == IF a[1] > 0 THEN 1 ELSE IF a[1] < 0 THEN -1 ELSE 0
\* largest integer <= a  (must fit TLC's integers)
RFloor(a)   == a[1] \div a[2]
\* a rounded to the grid 1/n  (used only to keep accumulated terms short; the
\* error, at most 1/(2n), is far below every tolerance it is used with)
RRound(a, n) == RFrac((2 * a[1] * n + a[2]) \div (2 * a[2]), n)

\* A real read from a trace (a decimal, a C hexadecimal float or "n/d") and a
\* test for "this trace field is a finite number".  Both exist only as
\* overrides: parsing is not part of the specification's meaning.
RParse(s) == CHOOSE r \in {} : TRUE
RIsNum(s) == CHOOSE r \in {} : TRUE
\* the exact text of a rational, as the harness reads it, and a short decimal
RText(a)  == ToString(a)
RShow(a)  == ToString(a)
RDec(a)   == ToString(a)   \* a decimal with 30 significant digits, as printed into a case
\* square root to about 40 significant digits (override only; the relations
\* that use it state their tolerance)
RSqrt(a) == CHOOSE r \in {} : TRUE

(***************************************************************************)
(* Trigonometry by the even power series in s = angle^2:                   *)
(*   RCosS(s) = cos(a), RSincS(s) = sin(a)/a, RVersS(s) = (1 - cos(a))/a^2 *)
(* The definitions sum the first terms; the override sums to 45 digits.    *)
(***************************************************************************)
RECURSIVE RSeries(_, _, _, _)
RSeries(s, term, k, first) ==
  IF k > 12 THEN term
  ELSE RAdd(term, RSeries(s, RNeg(RDiv(RMul(term, s), RInt((2*k + first) * (2*k + first - 1)))), k + 1, first))
RCosS(s)  == RSeries(s, RInt(1), 1, 0)
RSincS(s) == RSeries(s, RInt(1), 1, 1)
RVersS(s) == RSeries(s, RFrac(1, 2), 1, 2)
RCos(a) == RCosS(RMul(a, a))
RSin(a) == RMul(a, RSincS(RMul(a, a)))

\* arctangent: halve the angle until the series is short
RECURSIVE RAtanS(_, _, _)
RAtanS(x, term, k) == IF k > 12 THEN RInt(0) ELSE RAdd(RDiv(term, RInt((2*k) + 1)), RAtanS(x, RNeg(RMul(term, RMul(x, x))), k + 1))
RECURSIVE RAtan(_)
RAtan(x) == IF RLe(RAbs(x), RFrac(1, 100)) THEN RAtanS(x, x, 0)
            ELSE RMul(RInt(2), RAtan(RDiv(x, RAdd(RInt(1), RSqrt(RAdd(RInt(1), RMul(x, x)))))))

\* its argument, evaluated now (TLC evaluates functions lazily otherwise)
Strict(v) == v

RSq(a) == RMul(a, a)
RZero  == RInt(0)
ROne   == RInt(1)
RMin(a, b) == IF RLe(a, b) THEN a ELSE b
RMax(a, b) == IF RLe(a, b) THEN b ELSE a
\* sum of a sequence of rationals
RSum(seq) == LET RECURSIVE S(_) 
                 S(i) == IF i = 0 THEN RZero ELSE RAdd(S(i - 1), seq[i])
             IN  S(Len(seq))
\* inner product of two sequences of the same length; a - b c
RDot(a, b) == RSum([k \in 1..Len(a) |-> RMul(a[k], b[k])])
RSubMul(a, b, c) == RSub(a, RMul(b, c))
\* |a - b| <= tol
RNear(a, b, tol) == RLe(RAbs(RSub(a, b)), tol)
\* |a - b| <= tol * max(1, |b|)
RNearRel(a, b, tol) == RLe(RAbs(RSub(a, b)), RMul(tol, RMax(ROne, RAbs(b))))
=============================================================================
