----------------------------- MODULE Trace_Joint -----------------------------
(***************************************************************************)
(* Conformance of whole sweeps: runs that start from exact draws of the    *)
(* joint law of parameters, regimes, paths and data.  After the sweeps     *)
(*  - what has a law under the prior still has it (data averaged out);     *)
(*  - every event on state and data is entered as often as it is left;     *)
(*  - within a sweep, every update works on what the ones before it left.  *)
(***************************************************************************)
EXTENDS TraceBase, Joint
VARIABLES l, st
(* st: per event, how often it was entered and left, and observed, in all traces so far *)
InitSt == <<>>
At(s, k) == IF k \in DOMAIN s THEN s[k] ELSE [up |-> 0, down |-> 0, cnt |-> 0, n |-> 0]
Put(s, k, v) == [x \in DOMAIN s \cup {k} |-> IF x = k THEN v ELSE s[x]]
Sig == 6

RECURSIVE ErlTail(_, _, _)
ErlTail(m, k, term) == IF k = 0 THEN term ELSE LET t == ErlTail(m, k - 1, term) IN (Mul(t, m) + k \div 2) \div k
RECURSIVE ErlSum(_, _)
ErlSum(m, k) == IF k < 0 THEN 0 ELSE ErlSum(m, k - 1) + ErlTail(m, k, Exp(-m))
\* a normal law restricted to an interval
LawOf(w) == CASE w.kind = "normal" -> LET P(x) == NormCdf(Div(x, w.sd)) IN Div(P(w.c) - P(w.lo), P(w.hi) - P(w.lo))
              [] w.kind = "erlang" -> One - ErlSum(Mul(w.b, w.c), w.k - 1)
              [] w.kind = "even" -> One \div w.k

Pool(s, e) == LET o == At(s, e.what) IN
  IF e.ev = "Steady" THEN Put(s, e.what, [o EXCEPT !.up = @ + e.up, !.down = @ + e.down])
  ELSE Put(s, e.what, [o EXCEPT !.cnt = @ + e.cnt, !.n = @ + e.n])
PriorBad(s, e) == LET o == At(s, e.what) IN
  Chk("prior law kept after the sweeps, over all runs: " \o e.what, FreqOk(o.cnt, o.n, LawOf(e.law), Sig))
  \cup Chk("prior law kept after the sweeps: " \o e.what, FreqOk(e.cnt, e.n, LawOf(e.law), Sig))
SteadyBad(s, e) == LET o == At(s, e.what) IN
  Chk("event entered as often as left, over all runs: " \o e.what, FreqOk(o.up, o.up + o.down, One \div 2, Sig))
           \cup Chk("counts add up", e.after - e.before = e.up - e.down /\ e.after <= e.n)
           \cup Chk("event entered as often as left: " \o e.what, FreqOk(e.up, e.up + e.down, One \div 2, Sig))

Step(s, e) ==
  CASE e.ev = "Begin" -> [st |-> s, bad |-> {}]
    [] e.ev = "Prior" -> LET q == TLCEval(Pool(s, e)) IN [st |-> q, bad |-> PriorBad(q, e)]
    [] e.ev = "Steady" -> LET q == TLCEval(Pool(s, e)) IN [st |-> q, bad |-> SteadyBad(q, e)]
    [] e.ev = "Sweep" -> [st |-> s, bad |-> Chk("every update of a sweep uses what the updates before it left", SweepLatest(e.steps))
                                            \cup Chk("a sweep proposes a regime path and a hidden state", \A q \in DOMAIN e.has : LET k == e.has[q] IN \E i \in DOMAIN e.steps : e.steps[i].k = k)]
    [] e.ev = "Exc" -> [st |-> s, bad |-> {"exception: " \o e.what}]
    [] OTHER -> [st |-> s, bad |-> {"unknown event"}]

Init == l = 1 /\ st = InitSt
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET o == Step(st, Trace[l]) IN st' = o.st /\ Report(l, o.bad)
Spec == Init /\ [][Next]_<<l, st>>
Accepted == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
