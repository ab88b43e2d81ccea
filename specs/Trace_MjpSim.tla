---------------------------- MODULE Trace_MjpSim ----------------------------
(***************************************************************************)
(* Conformance of the regime simulators: conditioning (ranks, exact) and   *)
(* law (frequencies against probabilities computed here).                  *)
(***************************************************************************)
EXTENDS TraceBase, Mjp

VARIABLES l, st
InitSt == [none |-> 0]
Sig == 6

SimBad(e) ==
  Chk("simulated path starts at 0, jumps strictly inside the horizon, along positive rates", SimPath(e.p, e.zero, e.pos))
  \cup Chk("horizon is the requested one", e.p.fin = e.fin)
  \cup Chk("initial state", e.init < 0 \/ e.p.x[1] = e.init)
  \cup Chk("final state", e.last < 0 \/ EndState(e.p) = e.last)

MutateBad(e) ==
  Chk("mutation keeps the number of pieces", Len(e.new) = Len(e.old))
  \cup (IF Len(e.new) # Len(e.old) THEN {} ELSE
        UNION {Chk("piece: times, horizon and rates", SimPath(e.new[i], e.zero, e.pos) /\ e.new[i].fin = e.old[i].fin)
               \cup Chk("piece: states at the cuts", MayReplace(e.old, i, e.new[i])) : i \in DOMAIN e.old})
  \cup Chk("arguments are left as they were", e.intact)

ProposeBad(e) ==
  Chk("proposed path is a path of the process", SimPath(e.p, e.zero, e.pos))
  \cup Chk("proposed path keeps the horizon", e.p.fin = e.old.fin)
  \cup Chk("conditioning times are interior observation times, in order",
           /\ \A i \in DOMAIN e.cond : \E k \in 2..(Len(e.obs) - 1) : e.obs[k] = e.cond[i]
           /\ \A i \in 1..(Len(e.cond) - 1) : e.cond[i] < e.cond[i + 1])
  \cup Chk("states at the conditioning times are kept",
           \A i \in DOMAIN e.cond : StateAt(e.p, e.cond[i]) = StateAt(e.old, e.cond[i])
                                    /\ LeftState(e.p, e.cond[i]) = LeftState(e.old, e.cond[i]))

TransBad(e) == Chk("transition matrix", LET P == Trans(e.gen, e.fin) IN
                 \A i \in DOMAIN P : \A j \in DOMAIN P : Near(e.trans[i][j], P[i][j], 60))
StatBad(e) == Chk("stationary law", LET s == Stationary(e.gen) IN \A i \in DOMAIN s : Near(e.stat[i], s[i], 60))
GenBad(e) == Chk("generator: positive rates, rows sum to zero",
                 \A i \in DOMAIN e.gen : /\ Near(SumSeq(e.gen[i]), 0, 20)
                                         /\ \A j \in DOMAIN e.gen : i # j => e.gen[i][j] >= 0)

(* joint states at the increasing times e.at; e.cnt[i] counts the state vector e.cell[i] among e.n paths *)
CellProb(e, G, ini, x) ==
  IF e.last < 0 THEN PathProb(G, ini, Waits(e.at), x)
  ELSE Div(PathProb(G, ini, Waits(Append(e.at, e.fin)), Append(x, e.last)),
           PathProb(G, ini, <<e.fin>>, <<e.last>>))
LawBad(e) ==
  LET ini == IF e.init >= 0 THEN Point(Len(e.gen), e.init) ELSE Stationary(e.gen)
  IN UNION {Chk("law of the states at given times", FreqOk(e.cnt[i], e.n, CellProb(e, e.gen, ini, e.cell[i]), Sig)) : i \in DOMAIN e.cell}

(* paths without any jump, with end states both equal to e.init (bridge) or only started there *)
StillBad(e) ==
  LET q == -e.gen[e.init + 1][e.init + 1]
      stay == Exp(-Mul(q, e.fin))
      p == IF e.last < 0 THEN stay ELSE Div(stay, Trans(e.gen, e.fin)[e.init + 1][e.init + 1])
  IN Chk("probability of no jump", FreqOk(e.k, e.n, p, Sig))

(* a two-state path cut at c: the pieces are regenerated independently given the states at the cut *)
MutLawBad(e) ==
  LET G == e.gen
      sta == Stationary(G)
      \* state at u before the cut given the state a at the cut; state at u after it
      Before(u, a, x) == Div(Mul(sta[x + 1], Trans(G, e.cut - u)[x + 1][a + 1]), sta[a + 1])
      After(u, b, x) == Trans(G, u - e.cut)[b + 1][x + 1]
  IN UNION {Chk("law of a regenerated path given the states at the cut",
                FreqOk(e.cnt[i], e.n, Mul(Before(e.at[1], e.a, e.cell[i][1]), After(e.at[2], e.b, e.cell[i][2])), Sig)) : i \in DOMAIN e.cell}

(* every interior observation time is kept with probability 1 / (1 + e^s), independently *)
KeepBad(e) ==
  LET p == Div(One, One + Exp(e.s)) IN
  UNION {Chk("each observation time conditions with the scheduled probability", FreqOk(e.each[i], e.n, p, Sig)) : i \in DOMAIN e.each}
  \cup Chk("conditioning times are chosen independently", FreqOk(e.both, e.n, Sq(p), Sig))

Step(s, e) ==
  [st |-> s,
   bad |-> CASE e.ev = "Begin" -> {}
             [] e.ev = "Sim" -> SimBad(e)
             [] e.ev = "Mutate" -> MutateBad(e)
             [] e.ev = "Propose" -> ProposeBad(e)
             [] e.ev = "Trans" -> TransBad(e)
             [] e.ev = "Stat" -> StatBad(e)
             [] e.ev = "Gen" -> GenBad(e)
             [] e.ev = "Law" -> LawBad(e)
             [] e.ev = "Still" -> StillBad(e)
             [] e.ev = "MutLaw" -> MutLawBad(e)
             [] e.ev = "Keep" -> KeepBad(e)
             [] e.ev = "Exc" -> {"exception: " \o e.what}
             [] OTHER -> {"unknown event"}]

Init == l = 1 /\ st = InitSt
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET o == Step(st, Trace[l]) IN st' = o.st /\ Report(l, o.bad)
Spec == Init /\ [][Next]_<<l, st>>
Accepted == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
