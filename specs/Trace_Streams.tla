---------------------------- MODULE Trace_Streams ----------------------------
(* Runs of the same computation under different circumstances, as sequences of exact tokens. *)
EXTENDS TraceBase
VARIABLES l, st
InitSt == [run |-> <<>>]
Known(s) == Len(s.run) > 0
\* the first run of a computation fixes the outcome of all later ones
RunBad(s, e) ==
  Chk("same data, settings and seed give the same results (" \o e.how \o ")", ~Known(s) \/ e.tok = s.run[1].tok)
  \cup Chk("the stream is left at the same place (" \o e.how \o ")", ~Known(s) \/ e.left = s.run[1].left)
  \cup Chk("global random generators are left alone", e.glob)
AgainBad(e) == Chk("repeated calls continue the stream", e.same = FALSE) \cup Chk("global random generators are left alone", e.glob)
\* outcomes of equal sections: fair, and pairwise unrelated within a sweep and from one sweep to the next
Even == One \div 2
Sig == 6
IndepBad(e) ==
  UNION {Chk("sections have even odds", FreqOk(e.k[i], e.n, Even, Sig)) : i \in DOMAIN e.k}
  \cup UNION {Chk("sections of a sweep have streams of their own", FreqOk(e.side[i], e.n, Even, Sig)) : i \in DOMAIN e.side}
  \cup UNION {Chk("sweeps do not reuse random numbers", FreqOk(e.next[i], e.n - 1, Even, Sig)) : i \in DOMAIN e.next}
Step(s, e) ==
  CASE e.ev = "Begin" -> [st |-> InitSt, bad |-> {}]
    [] e.ev = "Run" -> [st |-> IF Known(s) THEN s ELSE [run |-> <<e>>], bad |-> RunBad(s, e)]
    [] e.ev = "Again" -> [st |-> s, bad |-> AgainBad(e)]
    [] e.ev = "Indep" -> [st |-> s, bad |-> IndepBad(e)]
    [] e.ev = "Exc" -> [st |-> s, bad |-> {"exception: " \o e.what}]
    [] OTHER -> [st |-> s, bad |-> {"unknown event"}]
Init == l = 1 /\ st = InitSt
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET o == Step(st, Trace[l]) IN st' = o.st /\ Report(l, o.bad)
Spec == Init /\ [][Next]_<<l, st>>
Accepted == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
