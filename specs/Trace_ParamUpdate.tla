-------------------------- MODULE Trace_ParamUpdate --------------------------
(* Recorded parameter updates of both samplers against ParamUpdate and Accept. *)
EXTENDS TraceBase, ParamUpdate, Accept
VARIABLES l, st
InitSt == [x |-> 0]
Sig == 6
Pts(q) == {q[i] : i \in DOMAIN q}

\* ---- what one update did
SeedsBad(e) ==
  Chk("as many path seeds as before", Len(e.old) = Len(e.new))
  \cup (IF Len(e.old) # Len(e.new) THEN {} ELSE
        Chk("revealed path points never change", \A k \in DOMAIN e.old : Pts(e.old[k]) \subseteq Pts(e.new[k]))
        \cup Chk("layers of the paths never change", e.lay0 = e.lay1))
  \cup Chk("the path keeps every point that decided the update", Pts(e.looked) \subseteq Pts(e.held))
\* coordinate-wise: one coordinate was asked for a proposal
UpdBad(e) ==
  SeedsBad(e)
  \cup (IF Len(e.asked) # 1 THEN {"exactly one coordinate is proposed"} ELSE
        Chk("at most the chosen coordinate changes, to the proposal", Local(e.nil, e.prop, e.asked[1], e.res))
        \cup Chk("the adaptation of the chosen coordinate is told once", Len(e.told) = 1 /\ e.told[1][1] = e.asked[1])
        \cup (IF Len(e.told) # 1 THEN {} ELSE
              Chk("the adaptation sees the accepted value and outcome",
                  Told(e.nil, e.prop, e.asked[1], e.res, <<e.told[1][2], e.told[1][3]>>))))
\* regime-wise: every regime has its own proposal for its own parameters
SwUpdBad(e) ==
  SeedsBad(e)
  \cup Chk("every regime is proposed once", e.asked = [i \in DOMAIN e.nil |-> i])
  \cup Chk("parameters of every regime are kept or replaced by its own proposal",
           Len(e.res) = Len(e.nil) /\ \A i \in DOMAIN e.nil : Local(e.nil, e.prop[i], i, [e.nil EXCEPT ![i] = e.res[i]]))
  \cup Chk("the adaptation of every regime is told once", [i \in DOMAIN e.told |-> e.told[i][1]] = [i \in DOMAIN e.nil |-> i])
  \cup Chk("the adaptation sees the accepted value and outcome",
           \A i \in DOMAIN e.told : Told(e.nil, e.prop[e.told[i][1]], e.told[i][1], e.res, <<e.told[i][2], e.told[i][3]>>))

\* ---- acceptance frequencies.  iv: intervals <<dt, v0, v1>>; a parameter is <<drift, volatility>>; the prior
\* of a parameter is exponential with the given rates.  sp "ito": motion transformed by x = v / volatility with
\* drift th[1]; "sw": x = v, drift th[1], volatility th[2].
Lik(e, th) == SumSeq([k \in DOMAIN e.iv |->
   LET dt == e.iv[k][1] dv == e.iv[k][3] - e.iv[k][2] IN
   LogGauss(dt, dv, th[2]) + (IF e.sp = "ito" THEN Mul(th[1], Div(dv, th[2])) ELSE Div(Mul(th[1], dv), Sq(th[2])))])
Prior(e, th) == -Mul(e.rate[1], th[1]) - Mul(e.rate[2], th[2])
LogW(e) == Lik(e, e.pri) + Prior(e, e.pri) + e.b - Lik(e, e.nil) - Prior(e, e.nil) - e.f
Span(e) == SumSeq([k \in DOMAIN e.iv |-> e.iv[k][1]])
\* level of the rate: constant, half the squared (scaled) drift
Phi(e, th) == IF e.sp = "ito" THEN Half(Sq(th[1])) ELSE Half(Sq(Div(th[1], th[2])))
ConstProb(e) == LET D == Mul(Phi(e, e.pri) - Phi(e, e.nil), Span(e))
                IN AcceptProb(LogW(e), Exp(-Max2(D, 0)), Exp(-Max2(-D, 0)), e.pk, e.pre)
\* rate th[1] * x, linear in the path: D is normal over the Brownian bridges
Slope(e, th) == IF e.sp = "ito" THEN Div(th[1], th[2]) ELSE th[1]
Spread(e, th) == IF e.sp = "ito" THEN th[1] ELSE Mul(th[1], th[2])
LinProb(e) ==
  LET dm == Slope(e, e.pri) - Slope(e, e.nil)
      ds == Abs(Spread(e, e.pri) - Spread(e, e.nil))
      m == SumSeq([k \in DOMAIN e.iv |-> Mul(Mul(e.iv[k][1], dm), Half(e.iv[k][2] + e.iv[k][3]))])
      v == SumSeq([k \in DOMAIN e.iv |-> Mul(Sq(ds), Mul(e.iv[k][1], Sq(e.iv[k][1]))) \div 12])
  IN AcceptLin(LogW(e), m, Sqrt(v), e.pre)
LawBad(e) == LET p == IF e.kind = "const" THEN ConstProb(e) ELSE LinProb(e)
             IN Chk("acceptance probability (" \o e.kind \o "): " \o ToString(p) \o " expected", FreqOk(e.cnt, e.n, p, Sig))

Step(s, e) == [st |-> s, bad |->
  CASE e.ev = "Begin" -> {}
    [] e.ev = "Upd" -> UpdBad(e)
    [] e.ev = "SwUpd" -> SwUpdBad(e)
    [] e.ev = "Law" -> LawBad(e)
    [] e.ev = "Exc" -> {"exception: " \o e.what}
    [] OTHER -> {"unknown event"}]
Init == l = 1 /\ st = InitSt
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET o == Step(st, Trace[l]) IN st' = o.st /\ Report(l, o.bad)
Spec == Init /\ [][Next]_<<l, st>>
Accepted == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
