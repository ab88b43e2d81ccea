------------------------------ MODULE Trace_Gauss ------------------------------
(* Moments and reference simulators of the real code. *)
EXTENDS TraceBase, Gauss
VARIABLES l, st
InitSt == 0
Sig == 6
\* grid cases: mean and covariance in 1/T
MomBad(e) ==
  LET w == Wiener(e.t, e.x0, e.mu) b == Bridge(e.t, e.T, e.x0, e.x1)
      At(q) == (q[1] * e.T) \div q[2]
      Same(mean, cov, m) == /\ mean = [i \in DOMAIN m.mean |-> At(m.mean[i])]
                            /\ cov = [i \in DOMAIN m.mean |-> [j \in DOMAIN m.mean |-> At(m.cov[i][j])]]
  IN Chk("moments of the Wiener process", Same(e.wm, e.wc, w))
     \cup Chk("moments of the Brownian bridge", Same(e.bm, e.bc, b))
     \cup Chk("moments of the conditioned vector", Same(e.cm, e.cc, b))
     \cup Chk("arguments are left as they were", e.intact)
\* fixed point: general Gaussian vector conditioned on its last coordinate
CondBad(e) ==
  LET n == Len(e.mean) v == e.cov[n][n]
      g == [i \in 1..(n - 1) |-> Div(e.cov[n][i], v)]
  IN Chk("conditioned mean", Len(e.cm) = n - 1 /\ \A i \in 1..(n - 1) : Near(e.cm[i], e.mean[i] + Mul(g[i], e.x - e.mean[n]), 60))
     \cup Chk("conditioned covariance", Len(e.cc) = n - 1 /\ \A i \in 1..(n - 1), j \in 1..(n - 1) : Near(e.cc[i][j], e.cov[i][j] - Mul(g[i], e.cov[n][j]), 60))
\* real times: Wiener and bridge moments
RealBad(e) ==
  LET D == DOMAIN e.t IN
  Chk("moments of the Wiener process", \A i \in D : Near(e.wm[i], e.x0 + Mul(e.mu, e.t[i]), 5) /\ \A j \in D : Near(e.wc[i][j], Min2(e.t[i], e.t[j]), 5))
  \cup Chk("moments of the Brownian bridge", \A i \in D : Near(e.bm[i], e.x0 + Div(Mul(e.x1 - e.x0, e.t[i]), e.T), 12)
              /\ \A j \in D : Near(e.bc[i][j], Div(Mul(Min2(e.t[i], e.t[j]), e.T - Max2(e.t[i], e.t[j])), e.T), 12))
\* P(sum over times and axes of c X <= m); Wiener (axes independent) or bridge
CovOf(e, s, t) == IF e.br THEN Div(Mul(Min2(s, t), e.T - Max2(s, t)), e.T) ELSE Min2(s, t)
MeanOf(e, a, s) == IF e.br THEN e.x0[a] + Div(Mul(e.x1 - e.x0[a], s), e.T) ELSE e.x0[a] + Mul(e.mu[a], s)
GaussBad(e) ==
  LET D == DOMAIN e.t A == DOMAIN e.x0
      mean == SumSeq([a \in A |-> SumSeq([i \in D |-> Mul(e.c[a][i], MeanOf(e, a, e.t[i]))])])
      var == SumSeq([a \in A |-> SumSeq([i \in D |-> SumSeq([j \in D |-> Mul(Mul(e.c[a][i], e.c[a][j]), CovOf(e, e.t[i], e.t[j]))])])])
      sd == Sqrt(var)
  IN UNION {Chk("law of the simulated paths", FreqOk(e.cnt[k], e.n, NormCdf(Div(e.m[k] - mean, sd)), Sig)) : k \in DOMAIN e.m}
\* chi-square with k degrees of freedom: <<distribution function F(k), (x/2)^(k/2) e^(-x/2) / Gamma(k/2 + 1) = F(k) - F(k + 2)>>
RECURSIVE ChiFrom(_, _, _, _)
ChiFrom(p, k, d, x) == IF k = d THEN p ELSE ChiFrom(<<Max2(0, p[1] - p[2]), Mul(p[2], Div(Half(x), Frac(k, 2) + One))>>, k + 2, d, x)
Chi0(d, x) == IF d % 2 = 0 THEN <<One, Exp(-Half(x))>>      \* k = 0
              ELSE <<2 * NormCdf(Sqrt(x)) - One, Mul(Mul(Sqrt(Half(x)), Exp(-Half(x))), 1128379)>>   \* k = 1
ChiPair(d, x) == ChiFrom(Chi0(d, x), d % 2, d, x)
RECURSIVE NonCen(_, _, _, _, _, _)
\* sum over j of Poisson(h) weights times the distribution function with d + 2 j degrees
NonCen(pair, k, x, w, h, j) ==
  IF j > 40 THEN 0
  ELSE Mul(w, pair[1]) + NonCen(ChiFrom(pair, k, k + 2, x), k + 2, x, Div(Mul(w, h), (j + 1) * One), h, j + 1)
\* P(length of a d-dimensional Gaussian vector with variance v and mean of length r is at most m)
LenCdf(d, v, r, m) == LET x == Div(Sq(m), v) h == Half(Div(Sq(r), v)) IN
  IF m <= 0 THEN 0 ELSE Max2(0, Min2(One, NonCen(ChiPair(d, x), d, x, Exp(-h), h, 0)))
BesBad(e) ==
  LET v == IF e.br THEN Div(Mul(e.t, e.T - e.t), e.T) ELSE e.t
      r == IF e.br THEN Div(Mul(e.x1, e.t), e.T) ELSE Abs(e.x0 + Mul(e.mu, e.t))
  IN UNION {Chk("law of the simulated Bessel paths", FreqOk(e.cnt[k], e.n, LenCdf(e.d, v, r, e.m[k]), Sig)) : k \in DOMAIN e.m}
     \cup Chk("Bessel paths are non-negative", e.pos)
\* three-dimensional transition density from r to q over time s
Phi(x) == IF Abs(x) > 6000000 THEN 0 ELSE Mul(398942, Exp(-Half(Sq(x))))
Bes3(s, r, q) ==
  LET z == Sqrt(s) IN
  IF r = 0 THEN Mul(Mul(2 * One, Div(Sq(q), s)), Div(Phi(Div(q, z)), z))
  ELSE Mul(Div(q, r), Div(Phi(Div(q - r, z)) - Phi(Div(q + r, z)), z))
\* P(X(s) <= a, X(t) <= b), by the midpoint rule with M cells each way
M == 40
JointBad(e) ==
  LET ra == [i \in 1..M |-> ((2 * i - 1) * e.a) \div (2 * M)]
      rb == [j \in 1..M |-> ((2 * j - 1) * e.b) \div (2 * M)]
      f == TLCEval([i \in 1..M |-> Bes3(e.s, e.x0, ra[i])])
      g == TLCEval([j \in 1..M |-> IF e.br THEN Bes3(e.T - e.t, rb[j], e.x1) ELSE One])
      tot == SumSeq([i \in 1..M |-> Mul(f[i], SumSeq([j \in 1..M |-> Mul(Bes3(e.t - e.s, ra[i], rb[j]), g[j])]) \div M)]) \div M
      p == Mul(Mul(tot, e.a), e.b)
  IN Chk("joint law of the simulated Bessel paths", FreqOk(e.cnt, e.n, Max2(0, Min2(One, IF e.br THEN Div(p, Bes3(e.T, e.x0, e.x1)) ELSE p)), Sig + e.n \div 1500))
\* discretised paths: times in units of the resolution; at zero volatility, values x_{k+1} = x_k + (p x_k + q) / U, all in 1/U^n
RECURSIVE Lin(_, _, _, _, _)
Lin(x, p, q, U, n) == IF n = 0 THEN <<x>> ELSE <<x>> \o Lin(x + (p * x + q) \div U, p, q, U, n - 1)
EulBad(e) ==
  Chk("one time per state, from 0, spaced by the resolution", e.t = [i \in 1..Len(e.t) |-> i - 1] /\ e.rows = e.draws /\ e.cols = Len(e.t))
  \cup Chk("as many steps as fit into the horizon", Len(e.t) - 1 \in {e.steps, e.steps - (IF e.exact THEN 0 ELSE 1)})
  \cup Chk("all paths start at the starting value", e.start)
  \cup (IF e.x = <<>> THEN {} ELSE Chk("discretised path follows the drift", e.x = Lin(e.x[1], e.p, e.q, e.U, Len(e.x) - 1)))
  \cup (IF e.w = <<>> THEN {} ELSE Chk("discretised path adds the noise at the current state",
          \A k \in 1..(Len(e.w) - 1) : Near(e.z[k + 1], e.z[k] + Mul(Mul(e.a, e.z[k]) + e.bb, e.res) + Mul(e.v0 + Mul(e.v1, e.z[k]), e.w[k + 1] - e.w[k]), 20)))
Step(s, e) ==
  [st |-> s, bad |->
  CASE e.ev = "Begin" -> {}
    [] e.ev = "Mom" -> MomBad(e)
    [] e.ev = "Cond" -> CondBad(e)
    [] e.ev = "Real" -> RealBad(e)
    [] e.ev = "Gauss" -> GaussBad(e)
    [] e.ev = "Bes" -> BesBad(e)
    [] e.ev = "Joint" -> JointBad(e)
    [] e.ev = "Euler" -> EulBad(e)
    [] e.ev = "Exc" -> {"exception: " \o e.what}
    [] OTHER -> {"unknown event"}]
Init == l = 1 /\ st = InitSt
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET o == Step(st, Trace[l]) IN st' = o.st /\ Report(l, o.bad)
Spec == Init /\ [][Next]_<<l, st>>
Accepted == TLCGet("stats").diameter = Len(Trace) + 1
================================================================================
