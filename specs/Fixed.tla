------------------------------- MODULE Fixed -------------------------------
(***************************************************************************)
(* Fixed-point real arithmetic for TLC's 32-bit integers.                  *)
(*                                                                         *)
(* A real x is represented by the integer round(x * One), One = 10^6, with *)
(* |x| < 2000.  Three integers outside that range are markers for values   *)
(* of the implementation that are not finite reals.  The functions below   *)
(* are accurate to a few units in the last place (relative to max(1,|x|)); *)
(* every comparison made with them states its tolerance explicitly.        *)
(***************************************************************************)
EXTENDS Integers, Sequences

One   == 1000000
NaN   == 2147483647
PInf  == 2147483646
NInf  == -2147483646
Big   == 2000000000

Fin(v)  == v <= Big /\ v >= -Big
AllFin(s) == \A i \in DOMAIN s : Fin(s[i])

Abs(a) == IF a < 0 THEN -a ELSE a
Sgn(a) == IF a < 0 THEN -1 ELSE 1
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a < b THEN b ELSE a

\* | a - b | <= tol, safe for any two finite values
Near(a, b, tol) ==
  /\ Fin(a) /\ Fin(b)
  /\ IF (a < 0) = (b < 0) THEN Abs(a - b) <= tol
     ELSE Abs(a) <= tol /\ Abs(b) <= tol /\ Abs(a) + Abs(b) <= tol

\* closeness with an absolute and a relative part (rel in parts per million)
Close(a, b, tol, ppm) ==
  /\ Fin(a) /\ Fin(b)
  /\ Near(a, b, tol + (Abs(b) \div 1000000) * ppm + (((Abs(b) % 1000000) \div 1000) * ppm) \div 1000)

LeTol(a, b, tol) == a <= b \/ Near(a, b, tol)

Int2Fx(n) == n * One

(* product of two non-negative fixed-point numbers *)
MulPos(a, b) ==
  LET ah == a \div One   al == a % One
      bh == b \div One   bl == b % One
      a1 == al \div 1000 a0 == al % 1000
      b1 == bl \div 1000 b0 == bl % 1000
  IN  ah * bh * One + ah * bl + al * bh
      + a1 * b1 + (((a1 * b0 + a0 * b1) * 1000 + a0 * b0 + 500000) \div One)

Mul(a, b) == Sgn(a) * Sgn(b) * MulPos(Abs(a), Abs(b))
Sq(a) == Mul(a, a)

RECURSIVE LongDiv(_, _, _, _)
LongDiv(r, b, q, k) ==
  IF k = 0 THEN (IF 2 * r >= b THEN q + 1 ELSE q)
  ELSE LongDiv((r * 10) % b, b, q * 10 + (r * 10) \div b, k - 1)

(* quotient of two positive integers as a fixed-point number *)
RECURSIVE DivPos(_, _)
DivPos(a, b) ==
  IF b > 200000000 THEN DivPos(a \div 10, b \div 10)
  ELSE LongDiv(a % b, b, a \div b, 6)

Div(a, b) == Sgn(a) * Sgn(b) * DivPos(Abs(a), Abs(b))
Frac(n, d) == Div(n, d)                 \* rational n/d
Half(a) == IF a >= 0 THEN (a + 1) \div 2 ELSE -((1 - a) \div 2)

RECURSIVE ISqrtN(_, _)
ISqrtN(n, x) == LET y == (x + n \div x) \div 2 IN IF y >= x THEN x ELSE ISqrtN(n, y)
ISqrt(n) == IF n < 2 THEN n ELSE ISqrtN(n, IF n > 46340 * 46340 - 1 THEN 46340 ELSE (n \div 2) + 1)

RECURSIVE SqrtN(_, _, _)
SqrtN(v, y, k) == IF k = 0 THEN y ELSE SqrtN(v, (y + DivPos(v, y)) \div 2, k - 1)
Sqrt(v) == IF v <= 0 THEN 0
           ELSE IF v < 1000 THEN SqrtN(v * 10000, 1000000, 14) \div 100
           ELSE SqrtN(v, IF v > One THEN (v \div 2) + One \div 2 ELSE One, 16)

Ln2 == 693147
Pi  == 3141593
TwoPi == 6283185
LnTwoPi == 1837877

RECURSIVE ExpSer(_, _, _, _)
ExpSer(r, term, acc, k) ==
  IF k > 10 THEN acc
  ELSE LET t == Mul(term, r) IN
       LET u == IF t >= 0 THEN (t + k \div 2) \div k ELSE -((-t + k \div 2) \div k)
       IN ExpSer(r, u, acc + u, k + 1)

RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)

(* exp on [-oo, 7.5]; larger arguments saturate *)
Exp(x) ==
  IF x < -15000000 THEN 0
  ELSE IF x > 7500000 THEN 1808042414
  ELSE LET n == IF x >= 0 THEN (x + Ln2 \div 2) \div Ln2 ELSE -((-x + Ln2 \div 2) \div Ln2)
           \* ln 2 = 0.69314718: correct the rounding of n * Ln2 by n * 0.18e-6
           r == x - n * Ln2 - (IF n >= 0 THEN (n * 18 + 50) \div 100 ELSE -((-n * 18 + 50) \div 100))
           e == ExpSer(r, One, One, 1)
       IN  IF n >= 0 THEN e * Pow2(n)
           ELSE (e + Pow2(-n - 1)) \div Pow2(-n)

RECURSIVE LnSer(_, _, _, _)
LnSer(t2, p, acc, k) ==
  IF k > 15 THEN acc
  ELSE LnSer(t2, Mul(p, t2), acc + (IF p >= 0 THEN (p + k \div 2) \div k ELSE -((-p + k \div 2) \div k)), k + 2)

RECURSIVE LnRed(_, _)
LnRed(v, k) == IF v > 1414214 THEN LnRed((v + 1) \div 2, k + 1)
               ELSE IF v < 707107 THEN LnRed(v * 2, k - 1)
               ELSE <<v, k>>
(* natural logarithm of a positive number *)
Ln(v) ==
  LET p == LnRed(v, 0)
      t == Div(p[1] - One, p[1] + One)
      k == p[2]
      c == IF k >= 0 THEN (k * 18 + 50) \div 100 ELSE -((-k * 18 + 50) \div 100)
  IN  2 * LnSer(Sq(t), t, 0, 1) + k * Ln2 + c

(* log(exp(a) + exp(b)) *)
LogAddExp(a, b) == LET m == Max2(a, b) d == Abs(a - b) IN
  IF d > 15000000 THEN m ELSE m + Ln(One + Exp(-d))

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

RECURSIVE SumTo(_, _)
SumTo(s, n) == IF n = 0 THEN 0 ELSE s[n] + SumTo(s, n - 1)

(* standard normal distribution function, |error| < 1e-5 (Abramowitz & Stegun 26.2.16 refined by 26.2.17) *)
NormCdf(x) ==
  LET z == Abs(x)
      t == Div(One, One + Mul(231642, z))
      poly == Mul(t, 319382 + Mul(t, -356564 + Mul(t, 1781478 + Mul(t, -1821256 + Mul(t, 1330274)))))
      pdf == Mul(398942, Exp(-Half(Sq(z))))
      q == Mul(pdf, poly)
  IN IF z > 6000000 THEN (IF x > 0 THEN One ELSE 0) ELSE IF x >= 0 THEN One - q ELSE q

(***************************************************************************)
(* Conformance of an observed frequency with a law: k heads in n trials is *)
(* compatible with probability p (fixed point) when |k - n p| is within    *)
(* `sig` standard deviations plus one.  n <= 2000000.                      *)
(***************************************************************************)
NP(n, p) == (n \div 1000) * (p \div 1000) + ((n \div 1000) * (p % 1000) + (p \div 1000) * (n % 1000)) \div 1000
            + ((n % 1000) * (p % 1000)) \div 1000000
FreqOk(k, n, p, sig) ==
  /\ p >= 0 /\ p <= One
  /\ LET e == NP(n, p)
         var == NP(n, Mul(p, One - p))
     IN Abs(k - e) <= sig * (ISqrt(var) + 1) + 1
=============================================================================
