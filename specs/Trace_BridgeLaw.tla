--------------------------- MODULE Trace_BridgeLaw ---------------------------
(* Frequencies of path events against the law of the Brownian bridge. *)
EXTENDS TraceBase, BridgeLaw
VARIABLES l, st
InitSt == [none |-> 0]
Sig == 6

\* P(sum c_i X(t_i) <= m_k)
HalfBad(e) == UNION {Chk("joint law of the revealed values",
                FreqOk(e.cnt[k], e.n, HalfSpace(e.c, e.t, e.T, e.x0, e.x1, e.m[k]), Sig)) : k \in DOMAIN e.m}
\* two combinations that are uncorrelated, hence independent
CellBad(e) ==
  LET p == HalfSpace(e.c, e.t, e.T, e.x0, e.x1, e.m) q == HalfSpace(e.d, e.t, e.T, e.x0, e.x1, e.k)
      rho == Div(CombCov(e.c, e.d, e.t, e.T), Sqrt(Mul(CombCov(e.c, e.c, e.t, e.T), CombCov(e.d, e.d, e.t, e.T))))
  IN Chk("uncorrelated combinations (driver)", Abs(rho) < 2000)
     \cup Chk("joint law of the revealed values", FreqOk(e.cnt, e.n, Mul(p, q), Sig))

\* signed windows <<s, has lower, lower, has upper, upper>>
WinSum(ws, g(_)) == SumSeq([i \in DOMAIN ws |-> ws[i].s * g(ws[i])])
JointProb(e, m) ==
  LET kil(w) == Killed(e.T, e.x0, e.x1, w.ha, w.a, w.hb, w.b, e.t, m)
      sta(w) == Stay(e.T, e.x0, e.x1, w.ha, w.a, w.hb, w.b)
      num == WinSum(e.num, kil)
      den == IF e.den = <<>> THEN One ELSE WinSum(e.den, sta)
  IN Clip(Div(num, den))
JointBad(e) == UNION {Chk("joint law of a value and the range of the path",
                 FreqOk(e.cnt[k], e.n, JointProb(e, e.m[k]), Sig)) : k \in DOMAIN e.m}

Step(s, e) ==
  [st |-> s,
   bad |-> CASE e.ev = "Begin" -> {}
             [] e.ev = "Half" -> HalfBad(e)
             [] e.ev = "Cell" -> CellBad(e)
             [] e.ev = "Joint" -> JointBad(e)
             [] e.ev = "Exc" -> {"exception: " \o e.what}
             [] OTHER -> {"unknown event"}]
Init == l = 1 /\ st = InitSt
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET o == Step(st, Trace[l]) IN st' = o.st /\ Report(l, o.bad)
Spec == Init /\ [][Next]_<<l, st>>
Accepted == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
