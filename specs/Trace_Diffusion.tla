--------------------------- MODULE Trace_Diffusion ---------------------------
(* Simulated diffusions and likelihood estimates of the real code against the exact laws. *)
EXTENDS TraceBase, Diffusion
VARIABLES l, st
InitSt == 0
Sig == 6
(* e.cc: one coefficient vector per consecutive draw (draws are independent); values observed on the scale of the data *)
LawBad(e) ==
  LET a == RevOf(e.m, e.th) v == VarRate(e.m, e.th)
      x0 == Scale(e.m, e.th, e.v0) D == DOMAIN e.t
      x1 == Scale(e.m, e.th, e.v1)
      mean == TLCEval(IF e.free THEN FreeMean(a, x0, e.t) ELSE PinMean(a, v, e.T, x0, x1, e.t))
      cov == TLCEval(IF e.free THEN FreeCov(a, v, e.t) ELSE PinCov(a, v, e.T, e.t))
      mu == SumSeq([k \in DOMAIN e.cc |-> SumSeq([i \in D |-> Mul(e.cc[k][i], mean[i])])])
      var == SumSeq([k \in DOMAIN e.cc |-> SumSeq([i \in D |-> SumSeq([j \in D |-> Mul(Mul(e.cc[k][i], e.cc[k][j]), cov[i][j])])])])
      sd == Sqrt(var)
  IN UNION {Chk("law of the diffusion", FreqOk(e.cnt[k], e.n, NormCdf(Div(Scale(e.m, e.th, e.mm[k]) - mu, sd)), Sig)) : k \in DOMAIN e.mm}
EndsBad(e) == Chk("values at the ends are the given ones", e.ends)
              \cup Chk("one value per requested time", e.shape)
(* logarithm of the average estimate, with the relative standard error of the average *)
MeanOk(e, want) == Abs(e.lmean - want) <= 6 * e.rse + 2500
PlainBad(e) == Chk("estimates average to the transition density", MeanOk(e, PlainTrans(e.m, e.th, e.dt, e.x)))
Sel(e) == IF e.restrict < 0 THEN DOMAIN e.y ELSE {i \in DOMAIN e.y : e.y[i] = e.restrict}
HiddenBad(e) == Chk("estimates average to the transition density given the hidden values",
                    MeanOk(e, HiddenTrans(e.m, e.th, [dt |-> e.dt, y |-> e.y, x |-> e.x, obs |-> {e.obs[i] : i \in DOMAIN e.obs}], Sel(e))))
RegimeBad(e) == Chk("estimates average to the transition density given the regimes",
                    MeanOk(e, SumSeq([k \in DOMAIN e.dt |-> RegimeTrans(e.m, e.th, e.dt[k], e.y[k], e.x[k], e.x[k + 1])])))
(* logarithmic estimates at given times: average and its standard error *)
PlainLogBad(e) == Chk("logarithmic estimates average to the expected augmented log-likelihood",
  Abs(e.mean - (PlainLik(e.m, e.th, e.dt, e.x) + SumSeq([i \in DOMAIN e.dt |-> LogAv(e.m, e.th, e.dt[i], e.x[i], e.x[i + 1], e.ts[i])]))) <= 6 * e.se + 1000)
HiddenLogBad(e) ==
  LET h == [dt |-> e.dt, y |-> e.y, x |-> e.x, obs |-> {e.obs[i] : i \in DOMAIN e.obs}] S == Sel(e) IN
  Chk("logarithmic estimates average to the expected augmented log-likelihood",
      Abs(e.mean - (First(e.m, e.th, h, S)
                    + SumSeq([i \in DOMAIN e.dt |-> IF i \in S THEN LogAv(e.m, e.th[e.y[i] + 1], e.dt[i], e.x[i], e.x[i + 1], e.ts[i]) ELSE 0]))) <= 6 * e.se + 1000)
Step(s, e) ==
  [st |-> s, bad |->
  CASE e.ev = "Begin" -> {}
    [] e.ev = "Law" -> LawBad(e)
    [] e.ev = "Ends" -> EndsBad(e)
    [] e.ev = "Plain" -> PlainBad(e)
    [] e.ev = "Hidden" -> HiddenBad(e)
    [] e.ev = "Regime" -> RegimeBad(e)
    [] e.ev = "PlainLog" -> PlainLogBad(e)
    [] e.ev = "HiddenLog" -> HiddenLogBad(e)
    [] e.ev = "Exc" -> {"exception: " \o e.what}
    [] OTHER -> {"unknown event"}]
Init == l = 1 /\ st = InitSt
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET o == Step(st, Trace[l]) IN st' = o.st /\ Report(l, o.bad)
Spec == Init /\ [][Next]_<<l, st>>
Accepted == TLCGet("stats").diameter = Len(Trace) + 1
================================================================================
