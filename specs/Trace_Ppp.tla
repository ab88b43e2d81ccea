------------------------------ MODULE Trace_Ppp ------------------------------
(* Conformance of the Poisson point process generators. *)
EXTENDS TraceBase, Ppp
VARIABLES l, st
InitSt == Opened(1, <<0>>, <<1>>)
Sig == 6

\* Poisson probabilities in fixed point
RECURSIVE PoisTerm(_, _), PoisCdf(_, _)
PoisTerm(mu, k) == IF k = 0 THEN Exp(-mu) ELSE (Mul(PoisTerm(mu, k - 1), mu) + k \div 2) \div k
PoisCdf(mu, k) == IF k < 0 THEN 0 ELSE IF k = 0 THEN PoisTerm(mu, 0) ELSE PoisCdf(mu, k - 1) + PoisTerm(mu, k)
\* probability of category c (0-based) when the counts are cut after each of `edges`
CatProb(mu, edges, c) == LET hi == IF c = Len(edges) THEN One ELSE PoisCdf(mu, edges[c + 1])
                             lo == IF c = 0 THEN 0 ELSE PoisCdf(mu, edges[c])
                         IN Max2(0, hi - lo)
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN One ELSE Mul(Head(s), Prod(Tail(s)))

BatchBad(s, e) ==
  Chk("no batch after a short one", ~s.short)
  \cup Chk("batch size", 1 <= Len(e.pts) /\ Len(e.pts) <= s.size)
  \cup Chk("points inside the region", \A i \in DOMAIN e.pts : Inside(s, e.pts[i]))
  \cup Chk("points in order of the first coordinate, within and across batches", Ordered(s, e.pts))

\* independent Poisson counts in disjoint parts of the region (means e.mu), cut into categories
CellsBad(e) ==
  UNION {Chk("joint law of the numbers of points in disjoint regions",
             FreqOk(e.cnt[i], e.n, Prod([r \in DOMAIN e.mu |-> CatProb(e.mu[r], e.edges[r], e.cell[i][r])]), Sig)) : i \in DOMAIN e.cell}
\* law of the k-th smallest first coordinate: at most u iff at least k points below u
KthBad(e) == UNION {Chk("law of the k-th point", FreqOk(e.cnt[i], e.n, One - PoisCdf(e.mu[i], e.kth - 1), Sig)) : i \in DOMAIN e.mu}

Step(s, e) ==
  CASE e.ev = "Begin" -> [st |-> InitSt, bad |-> {}]
    [] e.ev = "Open" -> [st |-> Opened(e.size, e.zero, e.edges), bad |-> {}]
    [] e.ev = "Batch" -> [st |-> Deliver(s, e.pts), bad |-> BatchBad(s, e)]
    [] e.ev = "All" -> [st |-> Deliver(s, e.pts), bad |->
           Chk("points inside the region", \A i \in DOMAIN e.pts : Inside(s, e.pts[i]))
           \cup Chk("points in order of the first coordinate", Ordered(s, e.pts))]
    [] e.ev = "Cells" -> [st |-> s, bad |-> CellsBad(e)]
    [] e.ev = "Kth" -> [st |-> s, bad |-> KthBad(e)]
    [] e.ev = "Exc" -> [st |-> s, bad |-> {"exception: " \o e.what}]
    [] OTHER -> [st |-> s, bad |-> {"unknown event"}]

Init == l = 1 /\ st = InitSt
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET o == Step(st, Trace[l]) IN st' = o.st /\ Report(l, o.bad)
Spec == Init /\ [][Next]_<<l, st>>
Accepted == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
