------------------------------- MODULE Trace_Lik -------------------------------
(* Log-likelihoods of the real code, recomputed. *)
EXTENDS TraceBase, Lik
VARIABLES l, st
InitSt == 0
C(a, b) == Close(a, b, 2500, 40)
PlainBad(e) ==
  Chk("log-likelihood of a diffusion", C(e.ll, PlainLik(e.m, e.th, e.dt, e.x)))
  \cup Chk("sum over intervals", C(SumSeq(e.parts), e.ll))
SwBad(e) ==
  LET h == [dt |-> e.dt, y |-> e.y, x |-> e.x, obs |-> {e.obs[i] : i \in DOMAIN e.obs}]
      all == DOMAIN h.dt
      rs == DOMAIN e.restr
      gauss == TLCEval(SegGauss(e.m, e.th, h)) drift == TLCEval(SegDrift(e.m, e.th, h)) ob == TLCEval(ObsGauss(e.m, e.th, h))
  IN Chk("first component", C(e.full[1], Sums(gauss, all) + Sums(drift, all)))
     \cup Chk("second component", C(e.full[2], ob - Sums(gauss, all)))
     \cup Chk("together: observation likelihood and drift terms", C(e.full[1] + e.full[2], ob + Sums(drift, all)))
     \cup UNION {Chk("first component of a regime", C(e.restr[r][1], Sums(gauss, Of(h, r - 1)) + Sums(drift, Of(h, r - 1)))) : r \in rs}
     \cup UNION {Chk("second component of a regime", C(e.restr[r][2], ob - Sums(gauss, Of(h, r - 1)))) : r \in rs}
     \cup Chk("regimes add up", C(SumSeq([r \in rs |-> e.restr[r][1]]), e.full[1]))
     \cup Chk("sections add up", C(SumSeq([k \in DOMAIN e.sec |-> e.sec[k][1]]), e.full[1]) /\ C(SumSeq([k \in DOMAIN e.sec |-> e.sec[k][2]]), e.full[2]))
     \cup Chk("cut at the requested times", Len(e.sec) = e.nsec /\ Len(e.parts) = e.nsec /\ SumSeq(e.parts) = Len(e.dt) /\ \A k \in DOMAIN e.parts : e.parts[k] > 0)
     \cup Chk("pasted sections are the whole", e.back = e.full)
\* other hidden values, same observations: only drift terms change in the total; other parameters of other regimes: nothing changes
MoveBad(e) ==
  LET H(x) == [dt |-> e.dt, y |-> e.y, x |-> x, obs |-> {e.obs[i] : i \in DOMAIN e.obs}]
      d == Sums(SegDrift(e.m, e.th, H(e.x2)), DOMAIN e.dt) - Sums(SegDrift(e.m, e.th, H(e.x)), DOMAIN e.dt)
  IN Chk("hidden values enter through the drift terms only", C(e.tot2 - e.tot, d))
     \cup Chk("a regime's part ignores the parameters of others", e.own)
\* hidden values given regimes: between observations a Brownian bridge on the clock that runs at the squared volatility
AnchorsBad(e) ==
  LET D == DOMAIN e.x
      v == [i \in DOMAIN e.dt |-> Mul(e.dt[i], Sq(Vol(Base(e.m), e.th[e.y[i] + 1])))]
      clock == TLCEval([k \in D |-> SumTo(v, k - 1)])
      O == {e.obs[i] : i \in DOMAIN e.obs}
      Lo(k) == CHOOSE q \in O : q <= k /\ \A r \in O : r <= k => r <= q
      Hi(k) == CHOOSE q \in O : q >= k /\ \A r \in O : r >= k => r >= q
      M(k) == IF k \in O THEN e.x[k] ELSE e.x[Lo(k)] + Mul(Div(clock[k] - clock[Lo(k)], clock[Hi(k)] - clock[Lo(k)]), e.x[Hi(k)] - e.x[Lo(k)])
      V(j, k) == IF j \in O \/ k \in O \/ Lo(j) # Lo(k) THEN 0
                 ELSE LET a == Min2(j, k) b == Max2(j, k) IN
                      Mul(clock[a] - clock[Lo(a)], Div(clock[Hi(b)] - clock[b], clock[Hi(b)] - clock[Lo(b)]))
      mean == SumSeq([k \in D |-> Mul(e.c[k], M(k))])
      var == SumSeq([j \in D |-> IF e.c[j] = 0 THEN 0 ELSE SumSeq([k \in D |-> Mul(Mul(e.c[j], e.c[k]), V(j, k))])])
  IN Chk("regimes decide the times of the hidden values", e.same)
     \cup UNION {Chk("law of the hidden values", FreqOk(e.cnt[k], e.n, NormCdf(Div(e.mm[k] - mean, Sqrt(var))), 6)) : k \in DOMAIN e.mm}
Step(s, e) ==
  [st |-> s, bad |->
  CASE e.ev = "Begin" -> {}
    [] e.ev = "Plain" -> PlainBad(e)
    [] e.ev = "Sw" -> SwBad(e)
    [] e.ev = "Move" -> MoveBad(e)
    [] e.ev = "Anchors" -> AnchorsBad(e)
    [] e.ev = "Exc" -> {"exception: " \o e.what}
    [] OTHER -> {"unknown event"}]
Init == l = 1 /\ st = InitSt
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET o == Step(st, Trace[l]) IN st' = o.st /\ Report(l, o.bad)
Spec == Init /\ [][Next]_<<l, st>>
Accepted == TLCGet("stats").diameter = Len(Trace) + 1
================================================================================
