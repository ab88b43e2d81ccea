------------------------------- MODULE Accept -------------------------------
(***************************************************************************)
(* Acceptance probabilities of the updates (fixed point, see Fixed).       *)
(*                                                                         *)
(* An update compares the current and the proposed state through           *)
(*   lw      log ratio of the tractable weights (proposed over current),   *)
(*   p1, p2  success probabilities of the coins of the proposed and of the *)
(*           current state (their ratio is the intractable weight ratio),  *)
(*   pk      probability of escaping after an unsuccessful flip,           *)
(*   pre     whether a first-stage test with the tractable weights is made *)
(*           before the coins (then the coins are weighted equally).       *)
(***************************************************************************)
EXTENDS Fixed

Logistic(d) == IF d >= 0 THEN Div(One, One + Exp(-d)) ELSE One - Div(One, One + Exp(d))
\* one round: proposal side with probability v1, then its coin; a failed round escapes with pk
Barker2(v1, p1, p2, pk) ==
  LET a == Mul(v1, p1) b == Mul(One - v1, p2) esc == Mul(pk, Max2(0, One - a - b))
  IN Div(a, a + b + esc)
AcceptProb(lw, p1, p2, pk, pre) ==
  IF pre THEN Mul(Logistic(lw), Barker2(500000, p1, p2, pk)) ELSE Barker2(Logistic(lw), p1, p2, pk)

\* mean of a function of a normal variable with mean m and standard deviation s, by the trapezoidal rule
GaussW(k) == Exp(-((k * k * 1000000) \div 32))          \* at u = k / 4
GaussMean(F(_), m, s) ==
  LET K == 20
      w == SumSeq([k \in 1..(2 * K + 1) |-> GaussW(k - K - 1)])
      v == SumSeq([k \in 1..(2 * K + 1) |-> Mul(GaussW(k - K - 1), F(m + Mul(s, (k - K - 1) * 250000)))])
  IN Div(v, w)
\* no escape: only the ratio exp(-D) of the coins matters, D normal with mean m and deviation s
AcceptLin(lw, m, s, pre) ==
  LET NoPre(x) == Logistic(lw - x) Pre(x) == Logistic(-x)
  IN IF pre THEN Mul(Logistic(lw), GaussMean(Pre, m, s)) ELSE GaussMean(NoPre, m, s)

\* log density of the increment dv over dt for unit-drift-free motion with volatility s, and its drift correction
LogGauss(dt, dv, s) == -Half(Ln(Mul(TwoPi, Mul(Sq(s), dt)))) - Half(Div(Sq(Div(dv, s)), dt))
=============================================================================
