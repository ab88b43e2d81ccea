------------------------------- MODULE Diffusion -------------------------------
(***************************************************************************)
(* Exact laws of the shipped diffusions that have one: mean-reverting      *)
(* Gaussian motion, rate a and variance v per unit of time, alone, pinned  *)
(* at its end, composed over a path of regimes, and as an average over     *)
(* the paths that the samplers propose.                                    *)
(***************************************************************************)
EXTENDS Lik
Decay(a, t) == Exp(-Mul(a, t))
OuVar(a, v, t) == IF Mul(a, t) < 20000        \* the quotient loses digits for short times
                  THEN LET u == Mul(a, t) IN Mul(Mul(v, t), One - u + Mul(Sq(u), 666667))
                  ELSE Div(Mul(v, One - Exp(-2 * Mul(a, t))), 2 * a)
LogOu(a, v, t, x0, x1) == LogDensity(x1 - Mul(x0, Decay(a, t)), OuVar(a, v, t))

(* joint law of the values at times t, given the start *)
FreeMean(a, x0, t) == [i \in DOMAIN t |-> Mul(x0, Decay(a, t[i]))]
FreeCov(a, v, t) == [i \in DOMAIN t |-> [j \in DOMAIN t |->
  LET s == Min2(t[i], t[j]) u == Max2(t[i], t[j]) IN Mul(Decay(a, u - s), OuVar(a, v, s))]]
(* and given the end as well *)
Pull1(a, v, T, t) == Div(Mul(Decay(a, T - t), OuVar(a, v, t)), OuVar(a, v, T))
PinMean(a, v, T, x0, x1, t) == [i \in DOMAIN t |-> Mul(x0, Decay(a, t[i])) + Mul(Pull1(a, v, T, t[i]), x1 - Mul(x0, Decay(a, T)))]
PinCov(a, v, T, t) == LET f == FreeCov(a, v, t) IN
  [i \in DOMAIN t |-> [j \in DOMAIN t |-> f[i][j] - Mul(Pull1(a, v, T, t[i]), Mul(Decay(a, T - t[j]), OuVar(a, v, t[j])))]]

(* average of exp(- c^2/2 int X^2) over Brownian bridges of variance v from x0 to x1 over T; k = c v *)
BridgeAv(k, T, v, x0, x1) ==
  LET a == Mul(k, T) ep == Exp(a) en == Exp(-a)
      sh == Half(ep - en) ch == Half(ep + en)
      q == Div(Mul(Half(k), Div(Mul(Sq(x0) + Sq(x1), ch) - 2 * Mul(x0, x1), sh)), v)
      g == Div(Sq(x1 - x0), 2 * Mul(v, T))
  IN Half(Ln(Div(a, sh))) + g - q

(***************************************************************************)
(* Model side.  The rate of mean reversion of model m is -DriftD, the      *)
(* variance is Vol^2.  An estimate averages, over proposed paths, to the   *)
(* transition density relative to the reference measure; hidden values     *)
(* have their own reference density.                                       *)
(***************************************************************************)
RevOf(m, th) == -DriftD(Base(m), th, One)
VarRate(m, th) == Sq(Vol(Base(m), th))
LogTrans(m, th, dt, x0, x1) == Jac(m, th, x1) + LogOu(RevOf(m, th), VarRate(m, th), dt, x0, x1)
PlainTrans(m, th, dt, x) == SumSeq([i \in DOMAIN dt |-> LogTrans(m, th, dt[i], x[i], x[i + 1])])
\* regimes and hidden values given; over the segments in S, which is how a restriction works
HiddenTrans(m, th, h, S) ==
  ObsGauss(m, th, h) + SumSeq([i \in DOMAIN h.dt |-> IF i \notin S THEN 0
     ELSE LogTrans(m, th[h.y[i] + 1], h.dt[i], h.x[i], h.x[i + 1]) - Gauss(m, th[h.y[i] + 1], h.dt[i], h.x[i], h.x[i + 1])])
\* regimes given, hidden values averaged out: compose the segments between observations
RECURSIVE Compose(_, _, _, _, _, _)
Compose(m, th, dt, y, mv, i) ==
  IF i > Len(dt) THEN mv
  ELSE LET p == th[y[i] + 1] a == RevOf(m, p) d == Decay(a, dt[i]) IN
       Compose(m, th, dt, y, <<Mul(mv[1], d), Mul(mv[2], Sq(d)) + OuVar(a, VarRate(m, p), dt[i])>>, i + 1)
RegimeTrans(m, th, dt, y, x0, x1) ==
  LET mv == Compose(m, th, dt, y, <<x0, 0>>, 1) IN Jac(m, th[1], x1) + LogDensity(x1 - mv[1], mv[2])
\* average of the rate at time t over proposed paths
RateAv(m, th, dt, x0, x1, t) ==
  LET b == Base(m) s == Div(t, dt) IN
  Rate(b, th, x0 + Mul(s, x1 - x0)) + Half(Mul(Sq(Pull(b, th, One)), Mul(VarRate(m, th), Mul(t, One - s))))
Mean(s) == SumSeq(s) \div Len(s)
LogAv(m, th, dt, x0, x1, ts) == -Mul(dt, Mean([i \in DOMAIN ts |-> RateAv(m, th, dt, x0, x1, ts[i])]))
================================================================================
