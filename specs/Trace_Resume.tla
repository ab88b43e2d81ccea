----------------------------- MODULE Trace_Resume -----------------------------
(* Sweeps of the real sampler as exact tokens: the uninterrupted chain first, then the same chain with stops. *)
EXTENDS TraceBase
VARIABLES l, st
InitSt == [ref |-> <<>>, end |-> <<>>, k |-> 0, open |-> FALSE, base |-> TRUE]
SweepBad(s, e) ==
  Chk("sweeps come from a running sampler", s.open)
  \cup (IF s.base THEN {} ELSE
    Chk("chain has the length of the uninterrupted one", s.k + 1 <= Len(s.ref))
    \cup (IF s.k + 1 > Len(s.ref) THEN {} ELSE
       UNION {Chk("resumed chain continues the uninterrupted one: " \o p, e.tok[p] = s.ref[s.k + 1][p]) : p \in DOMAIN e.tok}))
\* what the sampler exposes at a stop is what it last yielded
StopBad(s, e) == Chk("the exposed state is the one last yielded", s.k > 0 => e.same)
\* adaptation and random stream after the last sweep
EndBad(s, e) ==
  IF s.base THEN {} ELSE
    Chk("number of sweeps", s.k = Len(s.ref))
    \cup UNION {Chk("state of the sampler after the last sweep: " \o p, e.tok[p] = s.end[1][p]) : p \in DOMAIN e.tok}
Step(s, e) ==
  CASE e.ev = "Begin" -> [st |-> InitSt, bad |-> {}]
    [] e.ev = "Start" -> [st |-> [s EXCEPT !.k = 0, !.open = TRUE, !.base = (s.ref = <<>>)], bad |-> {}]
    [] e.ev = "Sweep" -> [st |-> [s EXCEPT !.k = @ + 1, !.ref = IF s.base THEN Append(@, e.tok) ELSE @], bad |-> SweepBad(s, e)]
    [] e.ev = "Stop" -> [st |-> [s EXCEPT !.open = FALSE], bad |-> StopBad(s, e)]
    [] e.ev = "Resume" -> [st |-> [s EXCEPT !.open = TRUE], bad |-> {}]
    [] e.ev = "End" -> [st |-> [s EXCEPT !.open = FALSE, !.end = IF s.base THEN <<e.tok>> ELSE @], bad |-> EndBad(s, e)]
    [] e.ev = "Moves" -> [st |-> s, bad |-> Chk("the chain moves and adapts", e.diff >= 2)]
    [] e.ev = "Exc" -> [st |-> s, bad |-> {"exception: " \o e.what}]
    [] OTHER -> [st |-> s, bad |-> {"unknown event"}]
Init == l = 1 /\ st = InitSt
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET o == Step(st, Trace[l]) IN st' = o.st /\ Report(l, o.bad)
Spec == Init /\ [][Next]_<<l, st>>
Accepted == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
