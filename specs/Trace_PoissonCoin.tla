-------------------------- MODULE Trace_PoissonCoin --------------------------
(* Conformance of the Poisson coins, dual coins and Poisson estimators. *)
EXTENDS TraceBase, PoissonCoin
VARIABLES l, st
InitSt == [none |-> 0]
Sig == 6

\* e.t0/e.x0 known before, e.t1/e.x1 known after, e.x values looked at, e.high whether the rate is high there
FlipBad(e) ==
  LET k0 == {<<e.t0[i], e.x0[i]>> : i \in DOMAIN e.t0}
      k1 == {<<e.t1[i], e.x1[i]>> : i \in DOMAIN e.t1}
  IN Chk("succeeds iff no point lies under the rate", Decided(e.ok, e.high))
     \cup Chk("the returned path keeps what was known", k0 \subseteq k1)
     \cup Chk("the returned path holds every point looked at", {e.x[i] : i \in DOMAIN e.x} \subseteq {p[2] : p \in k1})
     \cup Chk("the reported lower level is the integral of the bound", e.lb = e.want \/ Near(e.lb, e.want, 3))
     \cup Chk("the given path is left as it was", e.intact)
UnboundedBad(e) == Chk("an unbounded rate fails the coin", ~e.ok) \cup Chk("the given path is returned", e.same)

\* success of a coin on a path that is a straight line: rate a + b x + c x^2 above level `le`, over a horizon T
LineInt(e) == LET m1 == Half(e.x0 + e.x1)
                  m2 == (Sq(e.x0) + Mul(e.x0, e.x1) + Sq(e.x1)) \div 3
              IN Mul(e.T, e.a + Mul(e.b, m1) + Mul(e.c, m2) - e.le)
LineBad(e) == Chk("probability of success on a known path", FreqOk(e.cnt, e.n, Min2(One, Exp(-LineInt(e))), Sig))

\* E exp(- c^2/2 int X^2) for a Brownian bridge X of volatility v from x0 to x1 over T
CM(c, T, v, x0, x1) ==
  LET k == Mul(c, v) a == Mul(k, T)
      ep == Exp(a) en == Exp(-a)
      sh == Half(ep - en) ch == Half(ep + en)
      y0 == Div(x0, v) y1 == Div(x1, v)
      q == Mul(Half(k), Div(Mul(Sq(y0) + Sq(y1), ch) - 2 * Mul(y0, y1), sh))
      g == Div(Sq(y1 - y0), 2 * T)
  IN Min2(One, Mul(Sqrt(Div(a, sh)), Exp(g - q)))
CmBad(e) == Chk("probability of success averaged over bridges", FreqOk(e.cnt, e.n, CM(e.c, e.T, e.v, e.x0, e.x1), Sig))

Step(s, e) ==
  [st |-> s,
   bad |-> CASE e.ev = "Begin" -> {}
             [] e.ev = "Flip" -> FlipBad(e)
             [] e.ev = "Unbounded" -> UnboundedBad(e)
             [] e.ev = "Line" -> LineBad(e)
             [] e.ev = "Cm" -> CmBad(e)
             [] e.ev = "Exc" -> {"exception: " \o e.what}
             [] OTHER -> {"unknown event"}]
Init == l = 1 /\ st = InitSt
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET o == Step(st, Trace[l]) IN st' = o.st /\ Report(l, o.bad)
Spec == Init /\ [][Next]_<<l, st>>
Accepted == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
