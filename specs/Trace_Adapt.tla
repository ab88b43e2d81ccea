----------------------------- MODULE Trace_Adapt -----------------------------
(* Recorded adaptive proposals against Adapt. *)
EXTENDS TraceBase, Adapt
VARIABLES l, st
Sig == 6
InitSt == [kind |-> "none", opt |-> 0, decay |-> 0, air |-> 0, k |-> 1, win |-> <<>>, prev |-> 0, ls |-> 0, obs |-> <<>>]
New(e) == [kind |-> e.kind, opt |-> e.opt, decay |-> e.decay, air |-> e.air, k |-> 1, win |-> <<>>, prev |-> e.opt, ls |-> e.ls, obs |-> <<>>]

\* one outcome; e.ls is the log scale seen afterwards (in steps relative to the first one)
AdaptStep(s, e) ==
  LET w == Append(s.win, e.p)
      end == Len(w) = PeriodLen(s.k, s.air)
      mv == Moves(s.kind, s.k, s.decay, s.opt, s.prev, w)
      d == e.ls - s.ls
  IN [st |-> [s EXCEPT !.win = IF end THEN <<>> ELSE w, !.k = IF end THEN s.k + 1 ELSE s.k,
                       !.prev = IF end THEN e.p ELSE s.prev, !.ls = e.ls],
      bad |-> IF ~end THEN Chk("scale changes only when a period ends", Near(d, 0, e.tol))
              ELSE Chk("scale moves by the diminishing step towards the target acceptance", \E m \in mv : Near(d, m, e.tol + 20))]

\* a proposal from x with its two terms, r = ranks <<lower, proposal, upper>>
PropBad(e) ==
  Chk("proposal strictly inside the bounds", \A i \in DOMAIN e.r : e.r[i][1] < e.r[i][2] /\ e.r[i][2] < e.r[i][3])
  \cup (IF ~e.terms THEN {} ELSE
        LET n == DOMAIN e.x
            f == SumSeq([i \in n |-> LogDeriv(e.y[i], e.b[i].hl, e.b[i].a, e.b[i].hu, e.b[i].b)])
            g == SumSeq([i \in n |-> LogDeriv(e.x[i], e.b[i].hl, e.b[i].a, e.b[i].hu, e.b[i].b)])
            tf == SumSeq([i \in n |-> Grain(e.y[i], e.b[i].hl, e.b[i].a, e.b[i].hu, e.b[i].b)])
            tg == SumSeq([i \in n |-> Grain(e.x[i], e.b[i].hl, e.b[i].a, e.b[i].hu, e.b[i].b)])
        IN Chk("forward term is the log-derivative at the proposal", Near(e.f, f, tf + 10))
           \cup Chk("backward term is the log-derivative at the current state", Near(e.g, g, tg + 10)))
\* law of proposals from x: on the real line a normal with the given standard deviation around Real(x)
LawBad(e) ==
  UNION {LET z == Div(Real(e.c[k], e.hl, e.a, e.hu, e.b) - Real(e.x, e.hl, e.a, e.hu, e.b), e.sd)
             p == IF ~e.hl /\ e.hu THEN One - NormCdf(z) ELSE NormCdf(z)
         IN Chk("law of the proposals", FreqOk(e.cnt[k], e.n, p, Sig)) : k \in DOMAIN e.c}
\* law of u.(Real(y) - Real(x)) for a matrix scale * cov; m: thresholds
MvLawBad(e) ==
  LET v == Mul(e.scale, SumSeq([i \in DOMAIN e.u |-> SumSeq([j \in DOMAIN e.u |-> Mul(Mul(e.u[i], e.u[j]), e.cov[i][j])])]))
      sd == Sqrt(v)
  IN UNION {Chk("law of the proposals", FreqOk(e.cnt[k], e.n, NormCdf(Div(e.m[k], sd)), Sig)) : k \in DOMAIN e.m}
\* running moments after the observations o
BatchBad(e) ==
  LET d == DOMAIN e.mean IN
  Chk("running mean is the batch mean", \A i \in d : Near(e.mean[i], BatchMean(e.o, i), 20))
  \cup Chk("running covariance is the batch covariance", \A i \in d, j \in d : Near(e.cov[i][j], BatchCov(e.o, i, j), 200))
\* one step of the sampler's moments, the weight of the old ones being that of e.n observations
MomBad(e) ==
  LET d == DOMAIN e.x IN
  Chk("adapted mean is the running mean", \A i \in d : Near(e.m1[i], NextMean(e.n, e.m0[i], e.x[i]), 20))
  \cup Chk("adapted covariance is the running covariance", \A i \in d, j \in d :
             Near(e.c1[i][j], NextCov(e.n, e.c0[i][j], e.m0[i], e.m0[j], e.x[i], e.x[j]), 60))
  \cup Chk("proposal covariance changes only when a period ends", IF e.end THEN e.q1 = e.c1 ELSE e.q1 = e.q0)
\* both directions of the map
MapBad(e) ==
  LET r == Real(e.x, e.hl, e.a, e.hu, e.b) d == LogDeriv(e.x, e.hl, e.a, e.hu, e.b) g == Grain(e.x, e.hl, e.a, e.hu, e.b) IN
  Chk("map to the real line", Near(e.y, r, g)) \cup Chk("log-derivative of the map", Near(e.f, d, g))
  \cup Chk("inverse map", Near(e.back, e.x, 3)) \cup Chk("log-derivative of the inverse map", Near(e.h, d, g))
\* conditioning times of a regime proposal: each interior time kept with probability 1 / (1 + scale)
CondBad(e) == Chk("conditioning times are kept with the adapted probability", FreqOk(e.cnt, e.n, Div(One, One + Exp(e.ls)), Sig))

Step(s, e) ==
  CASE e.ev = "Begin" -> [st |-> InitSt, bad |-> {}]
    [] e.ev = "New" -> [st |-> New(e), bad |-> {}]
    [] e.ev = "Adapt" -> AdaptStep(s, e)
    [] OTHER -> [st |-> s, bad |->
         CASE e.ev = "Prop" -> PropBad(e)
           [] e.ev = "Law" -> LawBad(e)
           [] e.ev = "MvLaw" -> MvLawBad(e)
           [] e.ev = "Batch" -> BatchBad(e)
           [] e.ev = "Mom" -> MomBad(e)
           [] e.ev = "Map" -> MapBad(e)
           [] e.ev = "Cond" -> CondBad(e)
           [] e.ev = "Exc" -> {"exception: " \o e.what}
           [] OTHER -> {"unknown event"}]
Init == l = 1 /\ st = InitSt
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET o == Step(st, Trace[l]) IN st' = o.st /\ Report(l, o.bad)
Spec == Init /\ [][Next]_<<l, st>>
Accepted == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
