---------------------------- MODULE Trace_Hitting ----------------------------
(* Observed minima, crossings and layers against the formulas of Hitting. *)
EXTENDS TraceBase, Hitting
VARIABLES l, st
InitSt == [none |-> 0]
Sig == 6

Up(e) == IF e.hu THEN e.ub ELSE Min2(e.x0, e.x1)
TolIn(e) == 30 + Div(30, Max2(1, MassIn(e.T, e.x0, e.x1, e.hl, e.lb, Up(e))))
Range(s) == {s[i] : i \in DOMAIN s}
Sorted(s) == \A i \in 1..(Len(s) - 1) : s[i] <= s[i + 1]

\* values of the distribution function on an increasing grid between the bounds
CdfBad(e) ==
  UNION {Chk("distribution function of the minimum", Near(e.v[k], MinCdfIn(e.c[k], e.T, e.x0, e.x1, e.hl, e.lb, Up(e)), TolIn(e))) : k \in DOMAIN e.c}
  \cup Chk("distribution function is monotone", Sorted(e.v))
  \cup Chk("distribution function is a probability", \A k \in DOMAIN e.v : e.v[k] >= 0 /\ e.v[k] <= One)
\* values of the inverse at increasing probabilities; w: distribution function of these values
PpfBad(e) ==
  UNION {Chk("inverse distribution function of the minimum",
           IF e.p[k] = 0 /\ ~e.hl THEN e.v[k] = NInf
           ELSE IF e.p[k] = 0 THEN Near(e.v[k], e.lb, 20)
           ELSE IF e.p[k] = One THEN Near(e.v[k], Up(e), 20)
           ELSE Near(MinCdfIn(e.v[k], e.T, e.x0, e.x1, e.hl, e.lb, Up(e)), e.p[k], 2 * TolIn(e) + Div(4, Sqrt(e.T)))) : k \in DOMAIN e.p}
  \cup Chk("inverse undoes the distribution function", \A k \in DOMAIN e.p : Near(e.w[k], e.p[k], 5))
  \cup Chk("inverse is monotone", Sorted(e.v))
\* drawn minima; r = ranks <<lower bound, least, largest, upper bound>>, s = ranks <<0, least time, largest time, T>>
MinBad(e) ==
  UNION {Chk("law of the sampled minimum", FreqOk(e.cnt[k], e.n, MinCdfIn(e.c[k], e.T, e.x0, e.x1, e.hl, e.lb, Up(e)), Sig)) : k \in DOMAIN e.c}
  \cup Chk("sampled minimum within its bounds", Sorted(e.r))
  \cup Chk("time of the minimum within the horizon", e.s[1] < e.s[2] /\ e.s[2] <= e.s[3] /\ e.s[3] < e.s[4])
LayMinBad(e) ==
  LET um == IF e.hm THEN e.um ELSE Min2(e.x0, e.x1) IN
  UNION {Chk("law of the minimum of a layered bridge", FreqOk(e.cnt[k], e.n, LayerMinCdf(e.c[k], e.T, e.x0, e.x1, e.hl, e.lb, um, e.hu, e.ub), Sig)) : k \in DOMAIN e.c}
  \cup Chk("sampled minimum within its bounds", Sorted(e.r))
  \cup Chk("time of the minimum within the horizon", e.s[1] < e.s[2] /\ e.s[2] <= e.s[3] /\ e.s[3] < e.s[4])
\* where the minimum m is attained: hitting density before times hitting density after
ArgDens(e, s) ==        \* in units of the horizon
  LET q == Sqrt(e.T) a == Div(e.x0 - e.m, q)  b == Div(e.x1 - e.m, q)  r == One - s
      w == Div(Sq(a), 2 * s) + Div(Sq(b), 2 * r) - Div(Sq(a + b), 2 * One)
  IN IF w > 15000000 THEN 0 ELSE Div(Exp(-w), Mul(Mul(s, Sqrt(s)), Mul(r, Sqrt(r))))
Mesh == 120
ArgBad(e) ==
  LET d == TLCEval([i \in 1..Mesh |-> ArgDens(e, (One * (2 * i - 1)) \div (2 * Mesh)) \div 100])
      tot == SumSeq(d)
  IN UNION {Chk("law of the time of the minimum", FreqOk(e.cnt[k], e.n, Clip(Div(SumTo(d, e.k[k]), tot)), Sig)) : k \in DOMAIN e.k}
     \cup Chk("time of the minimum within the horizon", e.s[1] < e.s[2] /\ e.s[2] <= e.s[3] /\ e.s[3] < e.s[4])

\* crossings: f = "br" or "bes"; u: given random number
EscP(e) == IF e.u <= (IF e.f = "br" THEN Max2(Abs(e.x0), Abs(e.x1)) ELSE Max2(e.x0, e.x1)) THEN One
           ELSE IF e.hv /\ e.v < e.u THEN 0
           ELSE IF e.f = "br" THEN EscProb(e.T, e.x0, e.x1, e.u, e.hv, e.v) ELSE BesEscProb(e.T, e.x0, e.x1, e.u, e.hv, e.v)
StayP(e) == IF e.hv THEN (IF e.f = "br" THEN Inside2(e.T, e.x0, e.x1, -e.v, e.v) ELSE BesStay(e.T, e.x0, e.x1, e.v)) ELSE One
\* Bessel bridges away from 0: relative to the probability of staying positive
PosP(e) == IF e.f = "bes" /\ e.x0 > 0 THEN Above(e.T, e.x0, e.x1, 0) ELSE One
EscBad(e) ==
  IF Mul(StayP(e), PosP(e)) < 1000 THEN {"condition too rare (driver)"} ELSE
  LET p == EscP(e) tol == 40 + Div(40, Max2(1, Mul(StayP(e), PosP(e)))) IN
  UNION {Chk("crossing decided by the random number",
     IF p = One \/ p = 0 THEN e.got[k] = (p = One)
     ELSE Near(e.w[k], p, tol) \/ e.got[k] = (e.w[k] < p)) : k \in DOMAIN e.w}
EscFreqBad(e) ==
  LET p == EscP(e) IN
  Chk("probability of crossing", IF p = One THEN e.cnt = e.n ELSE IF p = 0 THEN e.cnt = 0 ELSE FreqOk(e.cnt, e.n, Clip(p), Sig + e.n \div Max2(50, Mul(StayP(e), PosP(e)))))

\* edges of layers 0, 1, ..., as ranks <<lo, hi>> together with the bounds, and in units of 10^-6 for the last
EdgesBad(e) ==
  Chk("layer 0 spans the end points", e.lo[1] = e.end[1] /\ e.hi[1] = e.end[2])
  \cup Chk("layers increase", \A k \in 1..(Len(e.lo) - 1) : e.lo[k + 1] < e.lo[k] /\ e.hi[k] < e.hi[k + 1])
  \cup Chk("layers stay within the bounds", \A k \in DOMAIN e.lo : (e.hl => e.lb < e.lo[k]) /\ (e.hu => e.hi[k] < e.ub))
  \cup Chk("layers exhaust the paths", LET s == Within(e.T, e.x0, e.x1, e.hl, e.vlb, e.hu, e.vub)
                                         q == Inside2(e.T, e.x0, e.x1, e.last[1], e.last[2])
                                     IN Near(q, s, 20000 + s \div 10))
\* the law of the sampled layer; cnt[k] = number of layers at most k
LayerBad(e) ==
  UNION {Chk("law of the sampled layer",
           FreqOk(e.cnt[k], e.n, Clip(Div(Inside2(e.T, e.x0, e.x1, e.lo[k], e.hi[k]), Within(e.T, e.x0, e.x1, e.hl, e.lb, e.hu, e.ub))), Sig)) : k \in DOMAIN e.cnt}
\* sectors of a sampled anchor, by rank
AnchorBad(e) ==
  Chk("sectors lie between the bounds and the end points",
      \A s \in Range(e.sec) : s.l0 < s.l1 /\ s.l1 <= s.lo /\ s.hi <= s.u0 /\ s.u0 < s.u1 /\ s.lb <= s.l0 /\ s.u1 <= s.ub)
  \cup Chk("sides are equally likely", FreqOk(e.cnt, e.n, 500000, Sig))
\* the lower edge case: minimum in (lo0, lo1), supremum below ub, joint weight one half if the supremum exceeds lbs
EdgeLawBad(e) ==
  LET both(c) == Within(e.T, e.x0, e.x1, TRUE, c, TRUE, e.ub)
      none(c) == Within(e.T, e.x0, e.x1, TRUE, c, TRUE, e.lbs)
      G(c) == (both(e.lo0) - both(c)) + (IF e.inner THEN 0 ELSE none(e.lo0) - none(c))
      tot == G(e.lo1)
      hit == IF e.inner THEN 0 ELSE (both(e.lo0) - both(e.lo1)) - (none(e.lo0) - none(e.lo1))
  IN UNION {Chk("law of the edge minimum", FreqOk(e.cnt[k], e.n, Clip(Div(G(e.c[k]), tot)), Sig)) : k \in DOMAIN e.c}
     \cup Chk("probability that the far layer is entered", FreqOk(e.hit, e.n, Clip(Div(hit, tot)), Sig))
     \cup Chk("minimum inside its sector", Sorted(e.r))
     \cup Chk("far sector is passed on, marks only beyond the first layer", e.pass /\ e.marks = (IF e.inner THEN 0 ELSE e.n))
\* one end closer and closer to the lower bound: the minimum is uniform between both, at a time near that end but never on it
NearEdgeBad(e) ==
  Chk("time of a minimum near an end within the horizon", e.s[1] < e.s[2] /\ e.s[3] < e.s[4])
  \cup Chk("minimum near an end below it", Sorted(e.r) /\ e.r[3] < e.r[4])
  \cup Chk("minimum near an end is reached near that end", FreqOk(e.near, e.n, One, Sig))
  \cup UNION {Chk("law of a minimum near an end", FreqOk(e.cnt[k], e.n, e.c[k], Sig)) : k \in DOMAIN e.c}

Step(s, e) ==
  [st |-> s,
   bad |-> CASE e.ev = "Begin" -> {}
             [] e.ev = "Cdf" -> CdfBad(e)
             [] e.ev = "Ppf" -> PpfBad(e)
             [] e.ev = "Min" -> MinBad(e)
             [] e.ev = "LayMin" -> LayMinBad(e)
             [] e.ev = "Arg" -> ArgBad(e)
             [] e.ev = "Esc" -> EscBad(e)
             [] e.ev = "EscFreq" -> EscFreqBad(e)
             [] e.ev = "Edges" -> EdgesBad(e)
             [] e.ev = "Layer" -> LayerBad(e)
             [] e.ev = "Anchor" -> AnchorBad(e)
             [] e.ev = "EdgeLaw" -> EdgeLawBad(e)
             [] e.ev = "NearEdge" -> NearEdgeBad(e)
             [] e.ev = "Exc" -> {"exception: " \o e.what}
             [] OTHER -> {"unknown event"}]
Init == l = 1 /\ st = InitSt
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET o == Step(st, Trace[l]) IN st' = o.st /\ Report(l, o.bad)
Spec == Init /\ [][Next]_<<l, st>>
Accepted == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
