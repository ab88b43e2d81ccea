---------------------------- MODULE Trace_TwoCoin ----------------------------
EXTENDS TraceBase, TwoCoin
VARIABLES l, st
InitSt == [run |-> Start(1, FALSE, 0), esc |-> 0, w |-> 0]
Sig == 6
FlipBad(s, e) ==
  Chk("no flip after the end, a success or the budget", CanFlip(s.run))
  \cup Chk("certain escape follows a failed flip", ~(s.esc = 2 /\ s.run.n > 0))
  \cup Chk("a coin of zero weight is not flipped", ~(s.w = 1 /\ e.coin = 1) /\ ~(s.w = 2 /\ e.coin = 2))
ReturnBad(s, e) ==
  Chk("returned outcome, escape flag and object follow the flips", CanReturn(s.run, e.acc, e.esc, e.obj, s.esc > 0))
RaiseBad(s) == Chk("budget error exactly after the budgeted flips failed", CanRaise(s.run, s.esc = 2))

\* law of a run: weights as log difference d = w2 - w1, coins p1, p2, escape r, budget b
LawBad(e) ==
  LET v1 == Div(One, One + Exp(e.d))
      a == Mul(v1, e.p1)  b == Mul(One - v1, e.p2)
      go == Mul(One - a - b, One - e.r)
      esc1 == Mul(One - a - b, e.r)
      G[k \in 0..e.max] == IF k = 0 THEN 0 ELSE One + Mul(go, G[k - 1])     \* 1 + go + go^2 + ...
      P[k \in 0..e.max] == IF k = 0 THEN One ELSE Mul(go, P[k - 1])
      g == G[e.max]
  IN Chk("probability of heads", FreqOk(e.heads, e.n, Mul(a, g), Sig))
     \cup Chk("probability of tails by the second coin", FreqOk(e.tails, e.n, Mul(b, g), Sig))
     \cup Chk("probability of escape", FreqOk(e.escapes, e.n, Mul(esc1, g), Sig))
     \cup Chk("probability of running out of budget", FreqOk(e.raised, e.n, P[e.max], Sig))

(* Two-value chain whose state carries a hidden object z = <<a, b>> of two fair bits, revealed bit by bit: a flip for *)
(* value x looks at one of the bits, chosen fairly, and succeeds with probability f[x][bit].  Target over values and   *)
(* objects: w[x] times the mean of f[x][a] and f[x][b].  Occupation after several steps started in the target.        *)
KernelBad(e) ==
  LET m(x, a, b) == Half(Mul(e.w[x], e.f[x][a] + e.f[x][b]))
      tot == m(1, 1, 1) + m(1, 1, 2) + m(1, 2, 1) + m(1, 2, 2) + m(2, 1, 1) + m(2, 1, 2) + m(2, 2, 1) + m(2, 2, 2)
  IN UNION {Chk("the two-coin kernel leaves its target invariant",
                FreqOk(e.cnt[x][2 * (a - 1) + b], e.n, Div(m(x, a, b), tot), Sig)) : x \in 1..2, a \in 1..2, b \in 1..2}

Step(s, e) ==
  CASE e.ev = "Begin" -> [st |-> InitSt, bad |-> {}]
    [] e.ev = "Open" -> [st |-> [run |-> Start(e.max, e.joint, e.obj), esc |-> e.esc, w |-> e.w], bad |-> {}]
    [] e.ev = "Flip" -> [st |-> [s EXCEPT !.run = Flip(s.run, e.coin, e.ok, e.obj)], bad |-> FlipBad(s, e)]
    [] e.ev = "Return" -> [st |-> [s EXCEPT !.run = Finish(s.run)], bad |-> ReturnBad(s, e)]
    [] e.ev = "Raise" -> [st |-> [s EXCEPT !.run = Finish(s.run)], bad |-> RaiseBad(s)]
    [] e.ev = "Law" -> [st |-> s, bad |-> LawBad(e)]
    [] e.ev = "Kernel" -> [st |-> s, bad |-> KernelBad(e)]
    [] e.ev = "Exc" -> [st |-> s, bad |-> {"exception: " \o e.what}]
    [] OTHER -> [st |-> s, bad |-> {"unknown event"}]
Init == l = 1 /\ st = InitSt
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET o == Step(st, Trace[l]) IN st' = o.st /\ Report(l, o.bad)
Spec == Init /\ [][Next]_<<l, st>>
Accepted == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
