----------------------------- MODULE MC_Diffusion -----------------------------
(***************************************************************************)
(* The laws the conformance check relies on agree with each other on a     *)
(* grid of parameters, horizons and end points (fixed point, six digits):  *)
(* proposal weight times average acceptance is the transition density      *)
(* (which is why the samplers are exact), laws compose over time, pinning  *)
(* at the end is conditioning, averaging the hidden values out of a regime *)
(* path is composing its segments.                                         *)
(***************************************************************************)
EXTENDS Diffusion, TLC
CONSTANTS Rev, Vols, Hor, Pts
VARIABLE c
H(S) == {k * (One \div 10) : k \in S}
\* points are numbered from 0; point k stands for (k - 8) / 5
Point(k) == (k - 8) * (One \div 5)
Init == c \in [a : H(Rev), s : H(Vols), T : H(Hor), p : Pts, q : Pts, cut : {250000, 500000, 900000}]
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
V == Sq(c.s) X0 == Point(c.p) X1 == Point(c.q) T == c.T S == Mul(c.cut, c.T)
\* relative size of the quantities compared decides the tolerance
Moderate == Div(Sq(X1 - X0), Mul(V, T)) < 25 * One /\ Mul(c.a, T) < 4 * One
Exact == Moderate =>
  LET ref == LogDensity(X1 - X0, Mul(V, T)) - Half(Div(Mul(c.a, Sq(X1) - Sq(X0)), V)) + Half(Mul(c.a, T))
             + BridgeAv(c.a, T, V, X0, X1)
  IN Abs(ref - LogOu(c.a, V, T, X0, X1)) < 300
Composes == /\ Near(Mul(Decay(c.a, S), Decay(c.a, T - S)), Decay(c.a, T), 4)
            /\ Near(OuVar(c.a, V, T), Mul(Sq(Decay(c.a, T - S)), OuVar(c.a, V, S)) + OuVar(c.a, V, T - S), 40)
\* density of the value at S given both ends, two ways: pinned law, and product of transition densities
PinnedIsConditioned == Moderate =>
  LET m == PinMean(c.a, V, T, X0, X1, <<S>>)[1] w == PinCov(c.a, V, T, <<S>>)[1][1]
      y == m + Half(Sqrt(w))
  IN Abs(LogDensity(y - m, w) - (LogOu(c.a, V, S, X0, y) + LogOu(c.a, V, T - S, y, X1) - LogOu(c.a, V, T, X0, X1))) < 4000
\* the pinned law is Markov: the covariance factorises
PinnedMarkov ==
  LET u == <<Half(S), S, S + Half(T - S)>> w == PinCov(c.a, V, T, u) IN
  Abs(Mul(w[1][3], w[2][2]) - Mul(w[1][2], w[2][3])) < 30 + Mul(V, 40)
\* equal regimes are one regime, and time within a regime may be cut anywhere
OneRegime == Near(RegimeTrans("sou3", <<<<c.s, Div(c.a, c.s)>>>>, <<S, T - S>>, <<0, 0>>, X0, X1), LogOu(c.a, V, T, X0, X1), 3000) \/ ~Moderate
\* short of rounding, the average of the rate at the ends is the rate there
RateEnds == \A t \in {0, T} : Near(RateAv("sou3", <<c.s, Div(c.a, c.s)>>, T, X0, X1, t), Rate("sou3", <<c.s, Div(c.a, c.s)>>, IF t = 0 THEN X0 ELSE X1), 10)
\* Jensen: averaging the logarithm stays below the logarithm of the average
BelowLog == Moderate =>
  LET ts == [i \in 1..20 |-> (2 * i - 1) * (T \div 40)] th == <<c.s, Div(c.a, c.s)>> IN
  LogAv("sou3", th, T, X0, X1, ts) <= Half(Mul(c.a, T)) + BridgeAv(c.a, T, V, X0, X1) + 2000
===============================================================================
