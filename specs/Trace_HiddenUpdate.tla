-------------------------- MODULE Trace_HiddenUpdate --------------------------
(* Recorded hidden-path updates of both samplers against HiddenUpdate and Accept. *)
EXTENDS TraceBase, HiddenUpdate, Accept
VARIABLES l, st
InitSt == [x |-> 0]
Sig == 6
Sets(h) == [h EXCEPT !.z = [k \in DOMAIN h.z |-> Range(h.z[k])]]
WellFormed(h) == Len(h.t) = Len(h.y) /\ Len(h.t) = Len(h.v) /\ Len(h.z) = Len(h.t) - 1 /\ Len(h.t) >= 2

\* a sweep over the regimes: nil, prime, res with revealed points, layers (names) next to them
HidBad(e) ==
  IF ~(WellFormed(e.nil) /\ WellFormed(e.prime) /\ WellFormed(e.res)) THEN {"hidden states are well formed"} ELSE
  LET c == Range(e.cond) a == Split(Sets(e.nil), c) b == Split(Sets(e.prime), c) r == Split(Sets(e.res), c) IN
  IF Len(r) # Len(a) \/ Len(b) # Len(a) THEN {"conditioning times stay anchors of the hidden state"} ELSE
  Chk("proposal agrees with the current regimes at conditioning times",
      \A k \in 1..(Len(a) - 1) : a[k].y[Len(a[k].y)] = b[k].y[Len(b[k].y)])
  \cup Chk("every section is kept or replaced whole, with its revealed points", SectionsOk(a, b, r))
  \cup Chk("the adaptation is told once", Len(e.told) = 1)
  \cup (IF Len(e.told) # 1 \/ ~SectionsOk(a, b, r) THEN {} ELSE
        LET p == Prune(Sets(e.res)) n == Cardinality(Replacements(a, b, r)) IN
        Chk("the adaptation sees the accepted regime path", e.told[1].t = p.t /\ e.told[1].y = p.y)
        \cup Chk("the adaptation sees the share of accepted sections", Near(e.told[1].prob, Frac(n, Len(a)), 2)))
\* plain diffusion: one path per interval
SdeBad(e) ==
  IF Len(e.old) # Len(e.prime) \/ Len(e.res) # Len(e.old) THEN {"one path per interval"} ELSE
  Chk("every bridge is kept or replaced, with its revealed points",
      \A k \in DOMAIN e.old : LET r == Range(e.res[k]) IN
         (Range(e.old[k]) \subseteq r /\ e.lay[k] = e.lay0[k]) \/ (Range(e.prime[k]) \subseteq r /\ e.lay[k] = e.lay1[k]))

\* ---- acceptance frequencies on the model with constant rates: th[i] = <<drift, volatility>> of regime i-1.
\* A section is a sequence of observation intervals [d |-> end - start value, p |-> <<dt, regime>> pieces].
Clock(e, o) == SumSeq([k \in DOMAIN o.p |-> Mul(o.p[k][1], Sq(e.th[o.p[k][2] + 1][2]))])
PieceClock(e, o, k) == Mul(o.p[k][1], Sq(e.th[o.p[k][2] + 1][2]))
Tilt(e, o, k) == Div(e.th[o.p[k][2] + 1][1], Sq(e.th[o.p[k][2] + 1][2]))
Rate(e, i) == Half(Sq(Div(e.th[i + 1][1], e.th[i + 1][2])))
ObsLik(e, o) == LET s == Clock(e, o) IN -Half(Ln(Mul(TwoPi, s))) - Half(Div(Sq(o.d), s))
RateInt(e, o) == SumSeq([k \in DOMAIN o.p |-> Mul(o.p[k][1], Rate(e, o.p[k][2]))])
\* mean and variance of the drift term over the anchors drawn for given regimes
TiltMean(e, o) == LET s == Clock(e, o) IN Mul(Div(o.d, s), SumSeq([k \in DOMAIN o.p |-> Mul(Tilt(e, o, k), PieceClock(e, o, k))]))
TiltVar(e, o) ==
  LET s == Clock(e, o)
      m1 == SumSeq([k \in DOMAIN o.p |-> Mul(Tilt(e, o, k), PieceClock(e, o, k))])
      m2 == SumSeq([k \in DOMAIN o.p |-> Mul(Sq(Tilt(e, o, k)), PieceClock(e, o, k))])
  IN Max2(0, m2 - Div(Sq(m1), s))
Over(F(_, _), e, sec) == SumSeq([k \in DOMAIN sec |-> F(e, sec[k])])
LogW(e, sec) == Over(ObsLik, e, sec) + Over(TiltMean, e, sec) - Over(RateInt, e, sec)
Total(e, sec) == SumSeq([k \in DOMAIN sec |-> SumSeq([j \in DOMAIN sec[k].p |-> sec[k].p[j][1]])])
\* coins: the rate exceeds its lower level by e.slack everywhere
SecProb(e, k) ==
  LET m == LogW(e, e.prime[k]) - LogW(e, e.nil[k])
      s == Sqrt(Over(TiltVar, e, e.prime[k]) + Over(TiltVar, e, e.nil[k]))
      c == Exp(-Mul(e.slack, Total(e, e.nil[k])))
      F(x) == AcceptProb(x, c, c, e.pk, e.pre)
  IN IF s < 2000 THEN F(m) ELSE GaussMean(F, m, s)
SecBad(e) ==
  LET P == TLCEval([k \in DOMAIN e.nil |-> SecProb(e, k)]) IN
  UNION {Chk("acceptance probability of a section: " \o ToString(P[k]) \o " expected", FreqOk(e.cnt[k], e.n, P[k], Sig)) : k \in DOMAIN e.nil}
  \cup (IF Len(e.nil) < 2 THEN {} ELSE
        Chk("sections are accepted independently", FreqOk(e.both, e.n, Mul(P[1], P[2]), Sig)))
\* plain diffusion, constant rate: bridges accepted with one half (up to escape), independently
SdeLawBad(e) ==
  LET C(k) == Exp(-Mul(e.slack, e.dt[k]))
      P == TLCEval([k \in DOMAIN e.dt |-> Barker2(500000, C(k), C(k), e.pk)]) IN
  UNION {Chk("acceptance probability of a bridge", FreqOk(e.cnt[k], e.n, P[k], Sig)) : k \in DOMAIN e.dt}
  \cup (IF Len(e.dt) < 2 THEN {} ELSE Chk("bridges are accepted independently", FreqOk(e.both, e.n, Mul(P[1], P[2]), Sig)))
\* constant rate whose reported lower level depends on the layer (two levels): the weight of the lower level and the
\* coin make up for each other
LayBad(e) ==
  UNION {UNION {
    LET si == Mul(e.gap[i], e.dt) sj == Mul(e.gap[j], e.dt) IN
    Chk("acceptance probability does not depend on how the rate is split into lower level and coin",
        FreqOk(e.cnt[i][j], e.n[i][j], AcceptProb(sj - si, Exp(-sj), Exp(-si), e.pk, e.pre), Sig)) : j \in 1..2} : i \in 1..2}
\* law of the path at a time tau into the interval after many updates: a bridge from x0 to x1 over dt with volatility
\* s tilted by the rate a x, hence normal with the mean moved by -a s^2 tau (dt - tau) / 2
TiltLawBad(e) ==
  LET r == e.dt - e.tau
      m == e.x0 + Mul(Div(e.tau, e.dt), e.x1 - e.x0) - Mul(Mul(e.a, Sq(e.s)), Half(Mul(e.tau, r)))
      sd == Mul(e.s, Sqrt(Div(Mul(e.tau, r), e.dt)))
  IN UNION {Chk("law of the path after many updates", FreqOk(e.cnt[k], e.n, NormCdf(Div(e.c[k] - m, sd)), Sig)) : k \in DOMAIN e.c}

\* the coins looked at values of both paths; a value outside the layer of one belongs to the other
KeptBad(e) ==
  IF e.isnil = e.isprime THEN {"the path is kept or replaced"} ELSE
  LET other == IF e.isnil THEN e.prime ELSE e.nil IN
  Chk("the path keeps every point that decided the update",
      \A x \in Range(e.looked) : (x < other[1] \/ x > other[2]) => x \in Range(e.held))

Step(s, e) == [st |-> s, bad |->
  CASE e.ev = "Begin" -> {}
    [] e.ev = "Hid" -> HidBad(e)
    [] e.ev = "Sde" -> SdeBad(e)
    [] e.ev = "SecLaw" -> SecBad(e)
    [] e.ev = "SdeLaw" -> SdeLawBad(e)
    [] e.ev = "Kept" -> KeptBad(e)
    [] e.ev = "LayLaw" -> LayBad(e)
    [] e.ev = "TiltLaw" -> TiltLawBad(e)
    [] e.ev = "Exc" -> {"exception: " \o e.what}
    [] OTHER -> {"unknown event"}]
Init == l = 1 /\ st = InitSt
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET o == Step(st, Trace[l]) IN st' = o.st /\ Report(l, o.bad)
Spec == Init /\ [][Next]_<<l, st>>
Accepted == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
