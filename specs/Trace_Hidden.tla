----------------------------- MODULE Trace_Hidden -----------------------------
(* Recorded hidden states of the switching samplers against Hidden. *)
EXTENDS TraceBase, Hidden
VARIABLES l, st
InitSt == [x |-> 0]

AlignBad(obs, h, nz) ==
  IF ~Shape(h) THEN {"one time, regime and value per anchor"} ELSE
  Chk("from the first to the last observation time", Spans(obs, h))
  \cup Chk("anchor times strictly increasing", Increasing(h.t))
  \cup Chk("every observation present with its value", Observed(obs, h))
  \cup Chk("regimes persist at observations and change everywhere else", RegimesOk(obs, h))
  \cup Chk("one seed per interval", Seeded(h, nz))
\* the hidden state made for a given regime path
AugBad(e) ==
  AlignBad(e.obs, e.h, e.nz)
  \cup (IF ~Shape(e.h) THEN {} ELSE
        Chk("anchors are the jumps and the observation times", e.h.t = Merge(e.p, e.obs))
        \cup Chk("regimes are those of the path", Len(e.h.t) = Len(e.h.y) /\ \A i \in DOMAIN e.h.t : e.h.t[i] < e.p.t[1] \/ e.h.y[i] = At(e.p, e.h.t[i])))
SplitBad(e) ==
  Chk("parts of the hidden state", e.parts = Split(e.h, Range(e.cond)))
  \cup Chk("pasting the parts", e.back = e.h)
PruneBad(e) ==
  Chk("pruned regime path", e.p = Prune(e.h)) \cup Chk("pruned path is minimal", Minimal(e.p))

Step(s, e) == [st |-> s, bad |->
  CASE e.ev = "Begin" -> {}
    [] e.ev = "State" -> AlignBad(e.obs, e.h, e.nz)
    [] e.ev = "Aug" -> AugBad(e)
    [] e.ev = "Split" -> SplitBad(e)
    [] e.ev = "Prune" -> PruneBad(e)
    [] e.ev = "Exc" -> {"exception: " \o e.what}
    [] OTHER -> {"unknown event"}]
Init == l = 1 /\ st = InitSt
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET o == Step(st, Trace[l]) IN st' = o.st /\ Report(l, o.bad)
Spec == Init /\ [][Next]_<<l, st>>
Accepted == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
