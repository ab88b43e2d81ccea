-------------------------------- MODULE Budget --------------------------------
(***************************************************************************)
(* Samplers that try proposals until one is accepted, at most max times.   *)
(*                                                                         *)
(* State of one request: n attempts so far, ok whether the last of them    *)
(* was accepted, out "run", "value" or "error".  An iterator starts a new  *)
(* request, with a fresh count, after each value, and is over after the    *)
(* error.  The proposals themselves come from one stream, so that requests *)
(* with different budgets see the same proposals.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences
Fresh(max) == [n |-> 0, max |-> max, ok |-> FALSE, out |-> "run"]
CanAttempt(s) == s.out = "run" /\ ~s.ok /\ s.n < s.max
Attempt(s, ok) == [s EXCEPT !.n = s.n + 1, !.ok = ok]
CanReturn(s) == s.out = "run" /\ s.ok
Return(s) == [s EXCEPT !.out = "value"]
CanRaise(s) == s.out = "run" /\ ~s.ok /\ s.n = s.max
Raise(s) == [s EXCEPT !.out = "error"]
\* what a request with budget b does if the k-th proposal is the first acceptable one (k = 0: there is none)
Outcome(b, k) == IF k > 0 /\ k <= b THEN [out |-> "value", tries |-> k] ELSE [out |-> "error", tries |-> b]
\* values produced by an iterator whose requests need k[1], k[2], ... attempts
RECURSIVE Yields(_, _)
Yields(b, k) == IF k = <<>> \/ Head(k) > b THEN 0 ELSE 1 + Yields(b, Tail(k))
RECURSIVE Total(_, _)
Total(k, m) == IF m = 0 THEN 0 ELSE k[m] + Total(k, m - 1)
Tries(b, k) == LET m == Yields(b, k) IN Total(k, m) + (IF m < Len(k) THEN b ELSE 0)
================================================================================
