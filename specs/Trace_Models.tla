----------------------------- MODULE Trace_Models -----------------------------
(* Values of the real model functions against the drift and volatility of the specification. *)
EXTENDS TraceBase, Models
VARIABLES l, st
InitSt == 0
Tol == 400
Ppm == 60
C(a, b) == Close(a, b, Tol, Ppm)
\* inside the grid: exact
LayerBad(e) ==
  UNION {Chk("rate on the grid", e.phi[i] = GRate(e.m, e.t1, e.t2, e.le + i - 1)) : i \in DOMAIN e.phi}
  \cup Chk("layer is covered", Len(e.phi) = e.ue - e.le + 1)
  \cup UNION {Chk("lower bound is below the rate", Fin(e.lo) /\ e.lo <= GRate(e.m, e.t1, e.t2, x)) : x \in e.le..e.ue}
  \cup UNION {Chk("upper bound is above the rate", Fin(e.up) /\ e.up >= GRate(e.m, e.t1, e.t2, x)) : x \in e.le..e.ue}
  \cup Chk("global lower level is not above the layer's", e.inf <= e.lo)
  \cup Chk("global lower level is below the rate everywhere", e.inf <= GRate(e.m, e.t1, e.t2, 0))
GradBad(e) ==
  LET d == GPath(e.m, e.p1, e.p2, e.w, e.v) - GPath(e.m, e.t1, e.t2, e.w, e.v) IN
  Chk("rate along a path on the grid", e.phi[1] = GPath(e.m, e.t1, e.t2, e.w, e.v) /\ e.phi[2] = GPath(e.m, e.p1, e.p2, e.w, e.v))
  \cup Chk("gradient bounds dominate the change of the rate", AllFin(e.b) /\ Abs(d) <= Abs(e.t1 - e.p1) * e.b[1] + Abs(e.t2 - e.p2) * e.b[2] + 4)
PointBad(e) ==
  Chk("drift", C(e.drift, Drift(e.m, e.th, e.x)))
  \cup Chk("derivative of the drift", C(e.dx, DriftD(e.m, e.th, e.x)))
  \cup Chk("volatility", C(e.vol, Vol(e.m, e.th)))
  \cup Chk("discounted rate", C(e.disc, Rate(e.m, e.th, e.x)))
PrimBad(e) == Chk("primitive of the drift", C(e.d, Prim(e.m, e.th, e.x0, e.x1)))
\* the layer's points, its finite edges and the turning point if it is inside
Inside(e) == {e.xs[i] : i \in DOMAIN e.xs} \cup {x \in {e.le, e.ue} : Fin(x)}
  \cup {t \in {Turning(e.m, e.th)[i] : i \in DOMAIN Turning(e.m, e.th)} : (e.le = NInf \/ e.le <= t) /\ (e.ue = PInf \/ t <= e.ue)}
Under(a, b) == a = NInf \/ b = PInf \/ (Fin(a) /\ Fin(b) /\ (a <= b \/ C(a, b)))
BndBad(e) ==
  UNION {LET r == Rate(e.m, e.th, x) IN
         Chk("lower bound is below the rate", Under(e.lo, r)) \cup Chk("upper bound is above the rate", Under(r, e.up))
         : x \in Inside(e)}
  \cup Chk("upper bound of an unbounded layer", (e.m # "cir" /\ ~(Fin(e.le) /\ Fin(e.ue))) => e.up = PInf)
  \* not a number stands for no global lower level
  \cup Chk("global lower level is not above the layer's", e.inf = NaN \/ Under(e.inf, e.lo))
  \cup Chk("global lower level exists where the rate is bounded", e.m = "cir" \/ e.inf # NaN)
PathGradBad(e) ==
  LET of(th, p) == Rate(e.m, th, PathOf(e.m, th, e.dt, Scale(e.m, th, e.v0), Scale(e.m, th, e.v1), p.s, p.z))
      bound == SumSeq([i \in DOMAIN e.th |-> Mul(Abs(e.th[i] - e.p[i]), e.b[i])])
  IN IF ~AllFin(e.b) THEN {"gradient bounds are finite"} ELSE
     UNION {LET a == of(e.th, q) b == of(e.p, q) IN
            Chk("gradient bounds dominate the change of the rate", Abs(a - b) <= bound + Tol + (Abs(a) + Abs(b)) \div 10000)
            : q \in {e.pts[i] : i \in DOMAIN e.pts}}
\* transforms of observations and path coordinates
RedBad(e) ==
  Chk("observations on the unit scale", C(e.x, Scale(e.m, e.th, e.v)))
  \cup Chk("and back", C(e.back, e.v))
  \cup Chk("derivative of the transform", C(Mul(e.dv, IF e.m = "cir" THEN Mul(e.th[3], Sqrt(e.v)) ELSE IF e.m = "ou" THEN e.th[2] ELSE One), One))
NormBad(e) ==
  Chk("time in standard form", C(e.s, Div(e.t, e.dt)))
  \cup Chk("path value from standard form", C(PathOf(e.m, e.th, e.dt, e.x0, e.x1, e.s, e.z), e.x))
  \cup Chk("back to time and value", C(e.t2, e.t) /\ C(e.x2, e.x))
  \cup Chk("ends are at zero", C(e.z0, 0) /\ C(e.z1, 0))
  \cup Chk("times alone", e.only)
PriorBad(e) ==
  Chk("prior is finite inside", AllFin(e.parts) /\ Fin(e.all))
  \cup Chk("regimes are a priori independent and alike", AllFin(e.parts) /\ C(e.all, SumSeq(e.parts)))
  \cup Chk("prior is zero outside", \A i \in DOMAIN e.outside : e.outside[i] = NInf)
Step(s, e) ==
  [st |-> s, bad |->
  CASE e.ev = "Begin" -> {}
    [] e.ev = "Layer" -> LayerBad(e)
    [] e.ev = "Grad" -> GradBad(e)
    [] e.ev = "Point" -> PointBad(e)
    [] e.ev = "Prim" -> PrimBad(e)
    [] e.ev = "Bnd" -> BndBad(e)
    [] e.ev = "PathGrad" -> PathGradBad(e)
    [] e.ev = "Red" -> RedBad(e)
    [] e.ev = "Norm" -> NormBad(e)
    [] e.ev = "Prior" -> PriorBad(e)
    [] e.ev = "Exc" -> {"exception: " \o e.what}
    [] OTHER -> {"unknown event"}]
Init == l = 1 /\ st = InitSt
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET o == Step(st, Trace[l]) IN st' = o.st /\ Report(l, o.bad)
Spec == Init /\ [][Next]_<<l, st>>
Accepted == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
