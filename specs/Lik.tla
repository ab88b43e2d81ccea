---------------------------------- MODULE Lik ----------------------------------
(***************************************************************************)
(* Likelihood of observations and hidden values relative to the measure    *)
(* under which paths are proposed.                                         *)
(*                                                                         *)
(* A segment is an interval of constant regime between neighbouring times  *)
(* of the hidden state.  It contributes the Gaussian log-density of its    *)
(* increment (Jacobian included) and the primitive difference of the       *)
(* drift.  Observation intervals are runs of segments; the observation     *)
(* density is Gaussian with the summed variance of the run.                *)
(***************************************************************************)
EXTENDS Models, FiniteSets
LogDensity(d, s) == -Half(Ln(s) + LnTwoPi) - Half(Div(Sq(d), s))
\* logarithm of the derivative of the transform to the unit scale, at the unit-scale value x
Jac(m, th, x) == CASE m = "ou" -> -Ln(th[2]) [] m = "cir" -> Ln(2 * One) - 2 * Ln(th[3]) - Ln(x)
                   [] m = "quad" -> Ln(4 * One) [] m = "log" -> -x [] OTHER -> 0
Base(m) == IF m \in {"quad", "log"} THEN "sou" ELSE m
Pullback(m, th, x0, x1) ==
  CASE m = "sou2" -> -Half(Mul(Div(Sq(th[2]), th[1]), Sq(x1) - Sq(x0)))
    [] m = "sou3" -> -Half(Mul(Div(th[2], th[1]), Sq(x1) - Sq(x0)))
    [] m \in {"sou", "quad", "log"} -> -Half(Mul(Mul(th[1], Sq(th[2])), Sq(x1) - Sq(x0)))
    [] OTHER -> Prim(m, th, x0, x1)
\* one segment: Gaussian part, drift part
Gauss(m, th, dt, x0, x1) == Jac(m, th, x1) + LogDensity(x1 - x0, Mul(dt, Sq(Vol(Base(m), th))))
Segment(m, th, dt, x0, x1) == Gauss(m, th, dt, x0, x1) + Pullback(m, th, x0, x1)
PlainLik(m, th, dt, x) == SumSeq([i \in DOMAIN dt |-> Segment(m, th, dt[i], x[i], x[i + 1])])

(* hidden state: dt, y (regime of each segment), x (values at the ends), obs (set of positions of observations) *)
Sums(f, S) == SumSeq([i \in 1..Cardinality(S) |-> f[CHOOSE j \in S : Cardinality({k \in S : k <= j}) = i]])
Positions(obs) == [i \in 1..Cardinality(obs) |-> CHOOSE j \in obs : Cardinality({k \in obs : k <= j}) = i]
VarOf(m, th, h) == [i \in DOMAIN h.dt |-> Mul(h.dt[i], Sq(Vol(Base(m), th[h.y[i] + 1])))]
SegGauss(m, th, h) == [i \in DOMAIN h.dt |-> Gauss(m, th[h.y[i] + 1], h.dt[i], h.x[i], h.x[i + 1])]
SegDrift(m, th, h) == [i \in DOMAIN h.dt |-> Pullback(m, th[h.y[i] + 1], h.x[i], h.x[i + 1])]
ObsGauss(m, th, h) ==
  LET p == Positions(h.obs) v == VarOf(m, th, h) IN
  SumSeq([k \in 1..(Len(p) - 1) |-> Jac(m, th[1], h.x[p[k + 1]])
          + LogDensity(h.x[p[k + 1]] - h.x[p[k]], Sums(v, p[k]..(p[k + 1] - 1)))])
\* first component over the segments in S, second: observations less the segments
First(m, th, h, S) == Sums(SegGauss(m, th, h), S) + Sums(SegDrift(m, th, h), S)
Second(m, th, h, S) == ObsGauss(m, th, h) - Sums(SegGauss(m, th, h), S)
Of(h, r) == {i \in DOMAIN h.y : h.y[i] = r}
================================================================================
