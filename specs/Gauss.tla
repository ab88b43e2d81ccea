--------------------------------- MODULE Gauss ---------------------------------
(***************************************************************************)
(* Moments of Gaussian processes at given times, over the rationals        *)
(* (pairs <<numerator, positive denominator>> in lowest terms).            *)
(***************************************************************************)
EXTENDS Integers, Sequences
RECURSIVE GcdOf(_, _)
GcdOf(a, b) == IF b = 0 THEN a ELSE GcdOf(b, a % b)
AbsI(n) == IF n < 0 THEN -n ELSE n
Rat(n, d) == LET s == IF d < 0 THEN -1 ELSE 1 g == GcdOf(AbsI(n), AbsI(d)) IN <<(s * n) \div g, (s * d) \div g>>
RAdd(p, q) == Rat(p[1] * q[2] + q[1] * p[2], p[2] * q[2])
RSub(p, q) == RAdd(p, <<-q[1], q[2]>>)
RMul(p, q) == Rat(p[1] * q[1], p[2] * q[2])
RDiv(p, q) == Rat(p[1] * q[2], p[2] * q[1])
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a < b THEN b ELSE a
Wiener(t, x0, mu) == [mean |-> [i \in DOMAIN t |-> <<x0 + mu * t[i], 1>>],
                      cov |-> [i \in DOMAIN t |-> [j \in DOMAIN t |-> <<MinI(t[i], t[j]), 1>>]]]
Bridge(t, T, x0, x1) == [mean |-> [i \in DOMAIN t |-> Rat(x0 * T + (x1 - x0) * t[i], T)],
                         cov |-> [i \in DOMAIN t |-> [j \in DOMAIN t |-> Rat(MinI(t[i], t[j]) * (T - MaxI(t[i], t[j])), T)]]]
\* the others given that the last one takes the value x
Given(m, x) ==
  LET n == Len(m.mean) v == m.cov[n][n] IN
  [mean |-> [i \in 1..(n - 1) |-> RAdd(m.mean[i], RMul(RDiv(m.cov[n][i], v), RSub(x, m.mean[n])))],
   cov |-> [i \in 1..(n - 1) |-> [j \in 1..(n - 1) |-> RSub(m.cov[i][j], RDiv(RMul(m.cov[n][i], m.cov[n][j]), v))]]]
================================================================================
