---------------------------- MODULE Trace_Symmetry ----------------------------
(* Reversal, reflection, flips and pivots of the real code on grids: exact.    *)
(* Seeded extremes and Bessel bridges: fixed point.                            *)
EXTENDS TraceBase, Symmetry
VARIABLES l, st
InitSt == 0
P(t, x) == [t |-> t, x |-> x]
RevBad(e) ==
  LET r == Reverse(P(e.t, e.x), e.T) IN
  Chk("time reversal", e.rt = r.t /\ e.rx = r.x)
  \cup Chk("reversal is an involution", e.bt = e.t /\ e.bx = e.x)
  \cup Chk("arguments are left as they were", e.intact)
RefBad(e) ==
  Chk("reflection", e.rx = Reflect(P(e.t, e.x), e.a).x /\ (e.timed => e.rt = e.t))
  \cup Chk("reflection is an involution", e.bx = e.x)
  \cup Chk("arguments are left as they were", e.intact)
FlipBad(e) ==
  LET f == Flip(e.s) IN
  Chk("flipping exchanges the extremes and keeps the ends", [t |-> e.f.t, x |-> e.f.x, tight |-> e.f.tight, loose |-> e.f.loose, hit |-> e.f.hit] =
         [t |-> f.t, x |-> f.x, tight |-> f.tight, loose |-> f.loose, hit |-> f.hit])
  \cup Chk("crossing marks follow their intervals", e.f.hi = f.hi)
  \cup Chk("flipping twice gives the original", e.b = e.s)
  \cup Chk("arguments are left as they were", e.intact)
\* s in 1/16; clock "id": the process runs in real time, "quad": four times as fast, "square": at the square of real time
PivotBad(e) ==
  LET U == 16 IN
  Chk("pivoted values", e.x = PivotX(e.s, e.z, e.r, e.x0, e.x1, U))
  \cup Chk("pivoted times", e.t = IF e.clock = "square" THEN [i \in DOMAIN e.k |-> 4 * e.k[i] * e.T] ELSE PivotT(e.s, e.T, U))
RefuseBad(e) == Chk("times outside the horizon are refused", e.refused)
\* minimum of a seeded bridge at most its quantile u, below the ends, in the horizon
MinCdf(c, T, x0, x1) == Exp(-Div(2 * Mul(x0 - c, x1 - c), T))
MinOf(e, m) == Near(MinCdf(m.x, m.T, m.x0, m.x1), e.u, 60 + 4 * (Div(Abs(m.x0) + Abs(m.x1) + Abs(m.x) + One, m.T) \div One))
SeedBad(e) ==
  LET a == e.m[1] IN
  UNION {Chk("seeded minimum is the quantile of its seed", MinOf(e, e.m[k])) : k \in DOMAIN e.m}
  \cup Chk("seeded minimum below both ends and inside the horizon", e.order)
  \cup UNION {Chk("seeded minimum moves with scale and position",
              LET m == e.m[k] IN Close(m.x, Mul(e.c[k], a.x) + e.d[k], 60, 20) /\ Close(m.t, Mul(Sq(e.c[k]), a.t), 60, 20)) : k \in DOMAIN e.m \ {1}}
  \cup Chk("seeded minimum increases with its seed", e.mono)
\* three standard bridges z turned into a Bessel bridge from 0 to x1: squared values
BesBad(e) ==
  UNION {Chk("Bessel bridge is the length of the pivoted bridges",
     LET first == Mul(Sqrt(e.T), e.z[i][1]) + Mul(e.s[i], e.x1)
     IN e.x[i] >= 0 /\ Close(Sq(e.x[i]), Sq(first) + Mul(e.T, Sq(e.z[i][2]) + Sq(e.z[i][3])), 60, 30)) : i \in DOMAIN e.s}
  \cup Chk("Bessel bridge times", \A i \in DOMAIN e.s : Near(e.t[i], Mul(e.s[i], e.T), 5))
Step(s, e) ==
  [st |-> s, bad |->
  CASE e.ev = "Begin" -> {}
    [] e.ev = "Rev" -> RevBad(e)
    [] e.ev = "Ref" -> RefBad(e)
    [] e.ev = "Flip" -> FlipBad(e)
    [] e.ev = "Pivot" -> PivotBad(e)
    [] e.ev = "Refuse" -> RefuseBad(e)
    [] e.ev = "Seed" -> SeedBad(e)
    [] e.ev = "Bes" -> BesBad(e)
    [] e.ev = "Exc" -> {"exception: " \o e.what}
    [] OTHER -> {"unknown event"}]
Init == l = 1 /\ st = InitSt
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET o == Step(st, Trace[l]) IN st' = o.st /\ Report(l, o.bad)
Spec == Init /\ [][Next]_<<l, st>>
Accepted == TLCGet("stats").diameter = Len(Trace) + 1
================================================================================
