------------------------------ MODULE Trace_Ars ------------------------------
(* Hulls, bracing and draws of the adaptive rejection sampler. *)
EXTENDS TraceBase, Ars
VARIABLES l, st
InitSt == [none |-> 0]
Sig == 6
Sorted(s) == \A i \in 1..(Len(s) - 1) : s[i] <= s[i + 1]

\* x, f, d: supports with values and slopes; y: intersections; z: points with target tz, upper up, lower lo (NInf outside)
HullBad(e) ==
  LET n == Len(e.x) IN
  Chk("one intersection between neighbouring supports", Len(e.y) = n - 1 /\ \A i \in 1..(n - 1) : e.x[i] - 2 <= e.y[i] /\ e.y[i] <= e.x[i + 1] + 2)
  \cup Chk("pieces meet at the intersections", \A i \in 1..(n - 1) :
             Near(Tangent(e.x, e.f, e.d, i, e.y[i]), Tangent(e.x, e.f, e.d, i + 1, e.y[i]), e.tol))
  \cup Chk("upper hull is the least tangent", \A k \in DOMAIN e.z : Near(e.up[k], UpperAt(e.x, e.f, e.d, e.z[k]), e.tol))
  \cup Chk("upper hull is never below the target", \A k \in DOMAIN e.z : e.up[k] >= e.tz[k] - 3)
  \cup Chk("lower hull is never above the target", \A k \in DOMAIN e.z : e.lo[k] <= e.tz[k] + 3)
  \cup Chk("lower hull is the chord", \A k \in DOMAIN e.z :
             IF e.z[k] <= e.x[1] \/ e.z[k] >= e.x[n] THEN e.lo[k] = NInf \/ e.z[k] \in {e.x[1], e.x[n]}
             ELSE Near(e.lo[k], LowerAt(e.x, e.f, e.z[k]), e.tol))
\* r = ranks <<lower bound, left, right, upper bound>>; l, h, mode in units of scale
BraceBad(e) ==
  Chk("bracing points inside the support", e.r[1] <= e.r[2] /\ e.r[2] < e.r[3] /\ e.r[3] <= e.r[4])
  \cup Chk("bracing points lie on both sides of the mode", IF e.inner THEN e.l < e.mode /\ e.mode < e.h ELSE e.l <= e.mode + 1000 /\ e.mode - 1000 <= e.h)
DrawBad(e) ==
  Chk("exactly the requested number of draws", e.got = e.asked)
  \cup Chk("draws lie in the support", Sorted(e.r))
  \cup Chk("hull keeps to the allowed number of points", e.pts <= Max2(e.cap, e.start))
  \cup UNION {Chk("law of the draws", FreqOk(e.cnt[k], e.n, Cdf(e, e.z[k]), Sig)) : k \in DOMAIN e.z}
\* pairs of draws: how often both are at most z
PairBad(e) == UNION {Chk("draws are independent", FreqOk(e.cnt[k], e.n, Mul(Cdf(e, e.z[k]), Cdf(e, e.z[k])), Sig)) : k \in DOMAIN e.z}
Step(s, e) ==
  [st |-> s,
   bad |-> CASE e.ev = "Begin" -> {}
             [] e.ev = "Hull" -> HullBad(e)
             [] e.ev = "Brace" -> BraceBad(e)
             [] e.ev = "Draw" -> DrawBad(e)
             [] e.ev = "Pair" -> PairBad(e)
             [] e.ev = "Exc" -> {"exception: " \o e.what}
             [] OTHER -> {"unknown event"}]
Init == l = 1 /\ st = InitSt
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET o == Step(st, Trace[l]) IN st' = o.st /\ Report(l, o.bad)
Spec == Init /\ [][Next]_<<l, st>>
Accepted == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
