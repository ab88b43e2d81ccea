--------------------------------- MODULE Ars ---------------------------------
(***************************************************************************)
(* Adaptive rejection sampling: hull geometry in fixed point and target    *)
(* distribution functions.                                                 *)
(***************************************************************************)
EXTENDS Fixed, FiniteSets

\* value at z of the tangent in support point i
Tangent(x, f, d, i, z) == f[i] + Mul(z - x[i], d[i])
RECURSIVE MinOver(_, _)
MinOver(g, n) == IF n = 1 THEN g[1] ELSE Min2(g[n], MinOver(g, n - 1))
\* the upper hull of a concave function is the least of its tangents
UpperAt(x, f, d, z) == MinOver([i \in DOMAIN x |-> Tangent(x, f, d, i, z)], Len(x))
\* the lower hull is the chord between neighbours
LowerAt(x, f, z) == LET i == CHOOSE k \in 1..(Len(x) - 1) : x[k] <= z /\ z <= x[k + 1]
                    IN f[i] + Mul(Div(z - x[i], x[i + 1] - x[i]), f[i + 1] - f[i])

\* distribution functions of the target families; a, b: bounds, hl, hu: are they finite; m, s: location and scale
Base(fam, z) ==
  CASE fam = "normal" -> NormCdf(z)
    [] fam = "expon" -> IF z <= 0 THEN 0 ELSE One - Exp(-z)
    [] fam = "gamma2" -> IF z <= 0 THEN 0 ELSE One - Exp(-z) - Mul(z, Exp(-z))
    [] fam = "gamma3" -> IF z <= 0 THEN 0 ELSE One - Mul(One + z + Half(Sq(z)), Exp(-z))
    [] fam = "laplace" -> IF z <= 0 THEN Half(Exp(z)) ELSE One - Half(Exp(-z))
    [] fam = "logistic" -> IF z <= 0 THEN Div(Exp(z), One + Exp(z)) ELSE Div(One, One + Exp(-z))
    [] fam = "gumbel" -> IF z < -2500000 THEN 0 ELSE Exp(-Exp(-z))
    [] fam = "uniform" -> Max2(0, Min2(One, z))
    [] fam = "beta22" -> LET u == Max2(0, Min2(One, z)) IN Mul(Sq(u), 3 * One - 2 * u)
    [] fam = "tri" -> LET u == Max2(0, Min2(One, z)) IN Sq(u)              \* density 2z
Cdf(e, z) ==
  LET g(v) == Base(e.fam, Div(v - e.m, e.s))
      lo == IF e.hl THEN g(e.a) ELSE 0
      up == IF e.hu THEN g(e.b) ELSE One
  IN Max2(0, Min2(One, Div(g(z) - lo, up - lo)))
=============================================================================
