---------------------------- MODULE Trace_Reveal ----------------------------
(***************************************************************************)
(* Conformance of interpolation with Reveal.  Times and values are ranks   *)
(* of doubles; doubles closer than 1e-10 share a rank (reversal and        *)
(* reflection of stored paths round in the last place).                    *)
(***************************************************************************)
EXTENDS TraceBase, Reveal
VARIABLES l, st
InitSt == [none |-> 0]

OpenBad(e) ==
  Chk("fresh path: ends, one extreme in between, inside its layer", WellFormed(e.s) /\ (e.att => ExtremeAttained(e.s)))
  \cup Chk("fresh path: frame in order", e.s.has => Dir(e.s, e.s.tight) < Dir(e.s, e.s.hit) /\ Dir(e.s, e.s.hit) < Dir(e.s, e.s.loose))
  \cup Chk("fresh path: certain crossings are marked", MarksSound(e.s))
  \cup Chk("fresh path has the requested end points", e.ends = <<>> \/
           (e.s.t[1] = e.ends[1] /\ e.s.t[Len(e.s.t)] = e.ends[2] /\ e.s.x[1] = e.ends[3] /\ e.s.x[Len(e.s.x)] = e.ends[4]))

\* e.s knowledge before, e.n after, e.req requested times, e.res values returned
AskBad(e) ==
  LET s == e.s n == e.n IN
  Chk("knowledge stays well formed: sorted times, values between extreme and layer edge, one mark per interval", WellFormed(n))
  \cup Chk("frame of the path never changes", SameFrame(s, n))
  \cup Chk("revealed values never change", NothingLost(s, n))
  \cup Chk("exactly the requested times are added", ExactlyAsked(s, n, e.req))
  \cup Chk("extreme stays attained", ~e.att \/ ExtremeAttained(n))
  \cup Chk("an interval keeps its crossing mark when refined", WellFormed(n) => MarksRefined(s, n))
  \cup Chk("certain crossings are marked", MarksSound(n))
  \cup Chk("one value per requested time, equal to the revealed one",
           Len(e.res) = Len(e.req) /\ \A i \in DOMAIN e.req : e.req[i] \in Known(n) => e.res[i] = ValueAt(n, e.req[i]))
  \cup Chk("arguments are left as they were", e.intact)

SeedBad(e) == Chk("values of a seed are handed out in the scale of the process",
                  \A i \in DOMAIN e.x : Close(e.x[i], Mul(Mul(e.z[i], Sqrt(e.fin)), e.vol) + e.x0 + Mul(e.s[i], e.x1 - e.x0), 40, 20))
RefuseBad(e) == Chk("times beyond the horizon are refused", e.refused)

Step(s, e) ==
  [st |-> s,
   bad |-> CASE e.ev = "Begin" -> {}
             [] e.ev = "Open" -> OpenBad(e)
             [] e.ev = "Ask" -> AskBad(e)
             [] e.ev = "Seed" -> SeedBad(e)
             [] e.ev = "Refuse" -> RefuseBad(e)
             [] e.ev = "Exc" -> {"exception: " \o e.what}
             [] OTHER -> {"unknown event"}]
Init == l = 1 /\ st = InitSt
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET o == Step(st, Trace[l]) IN st' = o.st /\ Report(l, o.bad)
Spec == Init /\ [][Next]_<<l, st>>
Accepted == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
