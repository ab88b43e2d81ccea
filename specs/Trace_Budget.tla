----------------------------- MODULE Trace_Budget -----------------------------
(* Budgeted samplers of the real code against the attempt machine of Budget. *)
EXTENDS TraceBase, Hitting, Budget
VARIABLES l, st
InitSt == Fresh(0)
Sig == 6
\* the same stream under every budget e.b[i]; id0, d0, f0: value, random draws and state of the stream without an effective budget
FamBad(e) ==
  LET I == DOMAIN e.b
      ks == {k \in 0..(e.b[Len(e.b)] + 1) : k > 0 /\ \A i \in I : e.raised[i] = (Outcome(e.b[i], k).out = "error")}
  IN Chk("error exactly below the number of attempts needed", ks # {})
     \cup Chk("value does not depend on the budget", \A i \in I : e.raised[i] \/ (e.id[i] = e.id0 /\ e.fin[i] = e.f0 /\ e.draws[i] = e.d0))
     \cup Chk("no attempt without budget", \A i \in I : e.b[i] = 0 => e.raised[i] /\ e.draws[i] = 0)
     \cup Chk("one more attempt per unit of budget, and none after success",
              \A i \in I \ {1} : (e.raised[i] => e.draws[i - 1] < e.draws[i]) /\ (e.raised[i - 1] => e.draws[i - 1] < e.d0))
\* acceptance probability of one attempt
Single(e) ==
  CASE e.kind = "layermin" ->
         LET um == IF e.hm THEN e.um ELSE Min2(e.x0, e.x1)
             num == Within(e.T, e.x0, e.x1, e.hl, e.lm, TRUE, e.ub) - (IF e.hm THEN Within(e.T, e.x0, e.x1, TRUE, um, TRUE, e.ub) ELSE 0)
             den == MinCdf(um, e.T, e.x0, e.x1) - (IF e.hl THEN MinCdf(e.lm, e.T, e.x0, e.x1) ELSE 0)
         IN Div(num, den)
    [] e.kind = "layer" -> Inside2(e.T, e.x0, e.x1, e.lm, e.ub)
    [] e.kind = "edges" ->
         LET both(c) == Within(e.T, e.x0, e.x1, TRUE, c, TRUE, e.ub)
             none(c) == Within(e.T, e.x0, e.x1, TRUE, c, TRUE, e.lbs)
             hit == (both(e.lm) - both(e.um)) - (none(e.lm) - none(e.um))
         IN One - Half(Div(hit, both(e.lm) - both(e.um)))
    [] e.kind = "layerbr" -> One - Div(Within(e.T, e.x0, e.x1, TRUE, e.lm, TRUE, e.lbs), Within(e.T, e.x0, e.x1, TRUE, e.lm, TRUE, e.ub))
    [] e.kind = "besbr" -> One - Div(BesStay(e.T, 0, e.x1, e.lbs), BesStay(e.T, 0, e.x1, e.ub))
    [] e.kind = "edge" -> BesStay(e.T, 0, e.x1, e.ub)
    [] e.kind = "rate" -> Exp(-Mul(e.c, e.T))
    [] e.kind = "twocoin" -> LET s == Mul(e.v, e.p1) + Mul(One - e.v, e.p2) IN s + Mul(One - s, e.esc)
RECURSIVE Pow(_, _)
Pow(p, b) == IF b = 0 THEN One ELSE Mul(p, Pow(p, b - 1))
\* e.cnt[i] requests with budget e.b[i] out of e.n failed
LawBad(e) ==
  LET p == Clip(Single(e)) IN
  Chk("acceptance probability bounded away from 0 and 1 (driver)", p > 20000 /\ p < 980000)
  \cup UNION {Chk("probability of running out of budget", FreqOk(e.cnt[i], e.n, Pow(One - p, e.b[i]), Sig)) : i \in DOMAIN e.b}
\* one request after the other: a proposal that breaks the rule on a point looked at is a failed attempt
Open(e) == [st |-> Fresh(e.max), bad |-> {}]
LookBad(s, e) ==
  IF ~e.fail THEN Chk("attempts within the budget", s.n < s.max)
  ELSE Chk("attempts within the budget", CanAttempt(s))
YieldBad(s, e) ==
  Chk("a value only after an accepted proposal", s.n < s.max)
  \cup Chk("an accepted proposal passed its test", e.viol = 0)
RaiseBad(s) == Chk("error only after the budget is spent", CanRaise(s))
\* an iterator under every budget: needs k of its requests, values produced, prefix equal to those of the unlimited one
IterBad(e) ==
  UNION {Chk("values before the error", e.yields[i] = Yields(e.b[i], e.k)) : i \in DOMAIN e.b}
  \cup UNION {Chk("error exactly when a request exceeds the budget", e.raised[i] = (Yields(e.b[i], e.k) < Len(e.k))) : i \in DOMAIN e.b}
  \cup Chk("values do not depend on the budget", \A i \in DOMAIN e.b : e.same[i])
  \cup Chk("proposals asked for", \A i \in DOMAIN e.b : e.pulls[i] < 0 \/ e.pulls[i] = Tries(e.b[i], e.k))
Step(s, e) ==
  CASE e.ev = "Begin" -> [st |-> InitSt, bad |-> {}]
    [] e.ev = "Fam" -> [st |-> s, bad |-> FamBad(e)]
    [] e.ev = "Law" -> [st |-> s, bad |-> LawBad(e)]
    [] e.ev = "Open" -> Open(e)
    [] e.ev = "Look" -> [st |-> IF e.fail THEN Attempt(s, FALSE) ELSE s, bad |-> LookBad(s, e)]
    [] e.ev = "Yield" -> [st |-> Fresh(s.max), bad |-> YieldBad(s, e)]
    [] e.ev = "Raise" -> [st |-> Raise(s), bad |-> RaiseBad(s)]
    [] e.ev = "Iter" -> [st |-> s, bad |-> IterBad(e)]
    [] e.ev = "Exc" -> [st |-> s, bad |-> {"exception: " \o e.what}]
    [] OTHER -> [st |-> s, bad |-> {"unknown event"}]
Init == l = 1 /\ st = InitSt
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET o == Step(st, Trace[l]) IN st' = o.st /\ Report(l, o.bad)
Spec == Init /\ [][Next]_<<l, st>>
Accepted == TLCGet("stats").diameter = Len(Trace) + 1
================================================================================
