-------------------------- MODULE Trace_RegimePath --------------------------
(***************************************************************************)
(* Conformance of the implementation's path surgery with RegimePath.       *)
(* Times are ticks; the driver multiplies them by a unit before the call   *)
(* and divides afterwards (NaN: not a whole number of ticks).              *)
(***************************************************************************)
EXTENDS TraceBase, RegimePath

VARIABLES l, st
InitSt == [p |-> [t |-> <<0>>, x |-> <<0>>, fin |-> 1]]

Good(p) == AllFin(p.t) /\ AllFin(p.x) /\ Fin(p.fin) /\ IsPath(p)

\* one cut, its pasting, and the cut of the pasted path
CutBad(e) ==
  LET want == Partition(e.p, e.b) IN
  Chk("cut: number of pieces", Len(e.parts) = Len(want))
  \cup Chk("cut: pieces are the restrictions of the path", Len(e.parts) = Len(want) /\
           \A i \in DOMAIN want : SamePath(e.parts[i], want[i]))
  \cup Chk("paste gives the path back", SamePath(e.pasted, e.p))
  \cup Chk("cutting the pasted path gives the same pieces", e.recut = <<>> \/
           (Len(e.recut) = Len(want) /\ \A i \in DOMAIN want : SamePath(e.recut[i], want[i])))
  \cup Chk("arguments are left as they were", e.intact)

\* pieces that share nothing are pasted in order, with spurious times removed
PasteBad(e) == Chk("paste: jumps, states and horizon", SamePath(e.pasted, Paste(e.parts)))

\* evaluation at u half ticks; the path's own times are given in half ticks too
EvalBad(e) == Chk("evaluation: state in force, right-continuous",
                  Len(e.v) = Len(e.u) /\ \A i \in DOMAIN e.u : e.v[i] = StateAt(e.p, e.u[i]))
              \cup Chk("evaluation beyond the horizon is refused", e.refused)

\* random equidistant breaks: n of them, positions in micro-ticks
EvenBad(e) ==
  LET n == Len(e.brk) IN
  Chk("sampled breaks: equidistant and interior", \A i \in 1..n : Near(e.brk[i], Div(e.p.fin * i, n + 1), 3))
  \cup Chk("sampled breaks: pieces between them", Len(e.lens) = n + 1 /\ \A i \in 1..(n + 1) : Near(e.lens[i], Div(e.p.fin, n + 1), 5))
  \cup Chk("sampled cut: pasting gives the path back", SamePath(e.pasted, e.p))
  \cup Chk("sampled cut: pieces start in the state in force", Len(e.starts) = n + 1 /\
           \A i \in 1..n : \/ e.starts[i + 1] = StateAt(e.p, (e.p.fin * i) \div (n + 1))
                           \* a break may fall on a jump only up to rounding
                           \/ \E k \in DOMAIN e.p.t : e.p.t[k] * (n + 1) = e.p.fin * i)

EqBad(e) == Chk("equality means same jumps, states and horizon", e.res = SamePath(e.p, e.q))

OccBad(e) == Chk("occupation shares", Len(e.share) = Len(e.states) /\
                 \A i \in DOMAIN e.states : Near(e.share[i], Frac(TimeIn(e.p, e.states[i]), e.p.fin), 3))

FreqBad(e) == Chk("number of random breaks follows the intensity", FreqOk(e.k, e.n, Exp(-e.mean), 6))

Step(s, e) ==
  [st |-> s,
   bad |-> CASE e.ev = "Begin" -> {}
             [] e.ev = "Cut" -> CutBad(e)
             [] e.ev = "Paste" -> PasteBad(e)
             [] e.ev = "Eval" -> EvalBad(e)
             [] e.ev = "Even" -> EvenBad(e)
             [] e.ev = "Eq" -> EqBad(e)
             [] e.ev = "Occ" -> OccBad(e)
             [] e.ev = "NoBreaks" -> FreqBad(e)
             [] e.ev = "Exc" -> {"exception: " \o e.what}
             [] OTHER -> {"unknown event"}]

Init == l = 1 /\ st = InitSt
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET o == Step(st, Trace[l]) IN st' = o.st /\ Report(l, o.bad)
Spec == Init /\ [][Next]_<<l, st>>
Accepted == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
