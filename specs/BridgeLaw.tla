------------------------------ MODULE BridgeLaw ------------------------------
(***************************************************************************)
(* Law of a Brownian bridge X from x0 to x1 over [0, T] (unit volatility), *)
(* in fixed point:                                                         *)
(*   HalfSpace   P(sum of c_i X(t_i) <= m)                                 *)
(*   Killed      P(a < X < b throughout, X(t) <= m), a and b optional      *)
(* The second is the method of images: each of the two parts of the path,  *)
(* before and after t, has a signed sum of Gaussian densities; a product   *)
(* of two of them is again Gaussian in X(t).                               *)
(***************************************************************************)
EXTENDS Fixed, FiniteSets, Sequences, TLC

\* covariance of a bridge at times s and t
BrCov(s, t, T) == Div(Mul(Min2(s, t), T - Max2(s, t)), T)
BrMean(t, T, x0, x1) == x0 + Div(Mul(x1 - x0, t), T)

RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET i == CHOOSE j \in S : TRUE IN f[i] + SumOver(f, S \ {i})

CombMean(c, t, T, x0, x1) == SumSeq([i \in DOMAIN c |-> Mul(c[i], BrMean(t[i], T, x0, x1))])
CombCov(c, d, t, T) == SumSeq([i \in DOMAIN c |-> SumSeq([j \in DOMAIN d |-> Mul(Mul(c[i], d[j]), BrCov(t[i], t[j], T))])])
HalfSpace(c, t, T, x0, x1, m) ==
  LET sd == Sqrt(CombCov(c, c, t, T)) IN NormCdf(Div(m - CombMean(c, t, T, x0, x1), sd))

\* number of images needed on each side: the next one is more than 5 standard deviations away
KOf(T, a, b) == (Div((5 * Sqrt(T)) \div 2, b - a) \div One) + 1
\* images <<sign, position>> of a point, given the walls
Images(T, x, ha, a, hb, b) ==
  IF ha /\ hb THEN LET K == KOf(T, a, b) IN
         {<<1, x + 2 * k * (b - a)>> : k \in (-K)..K} \cup {<<-1, 2 * a - x + 2 * k * (b - a)>> : k \in (-K)..(K + 1)}
  ELSE IF ha THEN {<<1, x>>, <<-1, 2 * a - x>>}
  ELSE IF hb THEN {<<1, x>>, <<-1, 2 * b - x>>}
  ELSE {<<1, x>>}

\* the contribution of one pair of images
PairTerm(p, q, T, t, x0, x1, lo, haslo, hi, sd) ==
  LET d == Abs(q[2] - p[2])
      e == IF d > 40000000 THEN 16000000 ELSE Div(Sq(d) - Sq(x1 - x0), 2 * T)
      mu == p[2] + Div(Mul(q[2] - p[2], t), T)
      z(v) == LET u == v - mu IN IF Abs(u) \div 10 > sd THEN Sgn(u) * 9000000 ELSE Div(u, sd)
      w == NormCdf(z(hi)) - (IF haslo THEN NormCdf(z(lo)) ELSE 0)
  IN IF e > 15000000 THEN 0 ELSE p[1] * q[1] * Mul(Exp(-e), w)

Clip(p) == Max2(0, Min2(One, p))
Killed(T, x0, x1, ha, a, hb, b, t, m) ==
  LET sd == Sqrt(BrCov(t, t, T))
      hi == IF hb THEN Min2(m, b) ELSE m
      I0 == Images(t, x0, ha, a, hb, b)
      I1 == Images(T - t, x1, ha, a, hb, b)
      pairs == I0 \X I1
      f == TLCEval([pq \in pairs |-> PairTerm(pq[1], pq[2], T, t, x0, x1, a, ha, hi, sd)])
  IN IF ha /\ m <= a THEN 0 ELSE Clip(SumOver(f, pairs))

\* P(a < X < b throughout)
Stay(T, x0, x1, ha, a, hb, b) ==
  LET I1 == Images(T, x1, ha, a, hb, b)
      f == [q \in I1 |-> LET d == Abs(q[2] - x0) e == IF d > 40000000 THEN 16000000 ELSE Div(Sq(d) - Sq(x1 - x0), 2 * T)
                         IN IF e > 15000000 THEN 0 ELSE q[1] * Exp(-e)]
  IN IF (ha /\ Min2(x0, x1) <= a) \/ (hb /\ Max2(x0, x1) >= b) THEN 0 ELSE Clip(SumOver(f, I1))
=============================================================================
