------------------------------- MODULE Hitting -------------------------------
(***************************************************************************)
(* Extremes, crossings and layers of the Brownian bridge, in fixed point.  *)
(***************************************************************************)
EXTENDS BridgeLaw

\* P(min <= c)
MinCdf(c, T, x0, x1) == IF c >= Min2(x0, x1) THEN One ELSE Exp(-Div(2 * Mul(x0 - c, x1 - c), T))
\* the same given lb < min < ub (hl: is there a lower bound)
MinCdfIn(c, T, x0, x1, hl, lb, ub) ==
  LET fl == IF hl THEN MinCdf(lb, T, x0, x1) ELSE 0
      fu == MinCdf(ub, T, x0, x1)
      f == MinCdf(c, T, x0, x1)
  IN IF c >= ub THEN One ELSE IF hl /\ c <= lb THEN 0 ELSE Clip(Div(f - fl, fu - fl))
\* mass of the bounds: results cannot be more accurate than one unit over it
MassIn(T, x0, x1, hl, lb, ub) == MinCdf(ub, T, x0, x1) - (IF hl THEN MinCdf(lb, T, x0, x1) ELSE 0)

Inside2(T, x0, x1, a, b) == IF a >= b THEN 0 ELSE Stay(T, x0, x1, TRUE, a, TRUE, b)
Above(T, x0, x1, a) == Stay(T, x0, x1, TRUE, a, FALSE, 0)
Below(T, x0, x1, b) == Stay(T, x0, x1, FALSE, 0, TRUE, b)
Within(T, x0, x1, hl, a, hu, b) == IF hl /\ hu /\ a >= b THEN 0 ELSE Stay(T, x0, x1, hl, a, hu, b)

\* Brownian bridge leaves (-u, u), given that it stays in (-v, v) if hv
EscProb(T, x0, x1, u, hv, v) == One - Div(Inside2(T, x0, x1, -u, u), IF hv THEN Inside2(T, x0, x1, -v, v) ELSE One)

\* three-dimensional Bessel bridge from x0 >= 0 to x1 > 0 stays below u
RECURSIVE BesTerms(_, _, _, _)
BesTerms(T, x, u, k) ==
  LET e == Div(2 * k * Mul(u, k * u + x), T)      \* k of either sign
      w == Div(2 * k * u + x, x)
  IN IF e > 15000000 THEN 0 ELSE Mul(w, Exp(-e))
BesStay(T, x0, x1, u) ==
  IF u <= Max2(x0, x1) THEN 0
  ELSE IF x0 > 0 THEN Clip(Div(Inside2(T, x0, x1, 0, u), Above(T, x0, x1, 0)))
  ELSE LET K == (Div((5 * Sqrt(T)) \div 2, u) \div One) + 1
       IN Clip(SumOver([k \in (-K)..K |-> BesTerms(T, x1, u, k)], (-K)..K))
BesEscProb(T, x0, x1, u, hv, v) == One - Div(BesStay(T, x0, x1, u), IF hv THEN BesStay(T, x0, x1, v) ELSE One)

\* minimum at most c, given lm < min < um and sup < ub
LayerMinCdf(c, T, x0, x1, hl, lm, um, hu, ub) ==
  LET top == Within(T, x0, x1, hl, lm, hu, ub)
      bot == IF um >= Min2(x0, x1) THEN 0 ELSE Within(T, x0, x1, TRUE, um, hu, ub)
      at == IF c >= Min2(x0, x1) THEN 0 ELSE Within(T, x0, x1, TRUE, c, hu, ub)
  IN Clip(Div(top - at, top - bot))
=============================================================================
