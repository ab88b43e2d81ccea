--------------------------- MODULE Trace_EmProtocol ---------------------------
(* Recorded runs of both EM estimators against EmProtocol. *)
EXTENDS TraceBase, EmProtocol, SequencesExt, FiniteSetsExt
VARIABLES l, st
InitSt == [cfg |-> <<>>, it |-> 0, ns |-> {1}, sweeps |-> -1, tid |-> 0, obj |-> NInf, prev |-> NInf, offs |-> {},
           org |-> <<>>, last |-> 0, lid |-> 0, over |-> FALSE, fits |-> 0, poor |-> 0]

BeginSt(e) == [InitSt EXCEPT !.cfg = e, !.tid = e.tid, !.offs = 0..(e.thin - 1), !.lid = e.lid]

\* a simulation of the hidden path: the first one starts the run, every further one is a sweep
AugBad(s, e) ==
  Chk("sweeps use the latest parameter", e.tid = s.tid)
  \cup Chk("no sweeps after the end", ~s.over)
\* regimes proposed from the latest generator
LamBad(s, e) == Chk("regimes are proposed with the latest generator", e.lid = s.lid)

\* particles: origin (sweep number) of every bridge.  Offset o: kept after sweeps o+1, o+1+thin, ... of the iteration
KeptAt(s, o, j) == s.last + o + 1 + (j - 1) * s.cfg.thin
OrgOk(s, e, o) ==
  \A j \in DOMAIN e.org : \A k \in DOMAIN e.org[j] :
    LET was == IF j = 1 THEN s.org[2][k] ELSE e.org[j - 1][k]
        lo == IF j = 1 THEN s.org[1] ELSE KeptAt(s, o, j - 1)
    IN \/ e.org[j][k] = was
       \/ e.org[j][k] > lo /\ e.org[j][k] <= KeptAt(s, o, j)
Offsets(s, e) == {o \in s.offs : OrgOk(s, e, o)}

FreeRange(lo, hi, lb, ub) == \A k \in DOMAIN lo : InBounds(lo[k], lb[k], ub[k]) /\ InBounds(hi[k], lb[k], ub[k])
YieldBad(s, e) ==
  LET c == s.cfg IN
  Chk("nothing follows an objective within the tolerance", ~s.over /\ (s.it >= 2 => MayGoOn(s.obj, s.prev, c.ftol)))
  \cup Chk("the number of particles follows the schedule", Len(e.org) \in s.ns)
  \cup Chk("every particle comes after the configured number of sweeps", s.sweeps - s.last = Len(e.org) * c.thin)
  \cup Chk("particles are successive states of the chain from the latest hidden state", Offsets(s, e) # {})
  \cup Chk("maximised within the buffered bounds",
           \A i \in DOMAIN e.thi : \A k \in DOMAIN e.thi[i] : InBuffered(e.thi[i][k], c.lb[k], c.ub[k], c.buf))
  \cup Chk("evaluated within the bounds only", FreeRange(e.lo, e.hi, c.lb, c.ub))
  \cup Chk("objective is a number", Fin(e.obj))
YieldSt(s, e) ==
  LET n == Len(e.org) o == IF Offsets(s, e) = {} THEN s.offs ELSE Offsets(s, e) IN
  [s EXCEPT !.it = @ + 1, !.ns = NextCounts(n, s.cfg.lr), !.tid = e.tid, !.lid = e.lid, !.prev = s.obj, !.obj = e.obj,
            !.offs = o, !.org = <<KeptAt(s, Min(o), n), e.org[n]>>, !.last = s.sweeps]
\* the generator stopped by itself
StopBad(s, e) == Chk("stops when the objective moved by less than the tolerance, not before", s.it >= 2 /\ MayStop(s.obj, s.prev, s.cfg.ftol))

\* objective of plain diffusions: log likelihood and prior at the parameter, minus the mean rate at the supports
ObjBad(e) ==
  Chk("the objective is the average augmented log likelihood plus log prior", Near(e.obj, e.ll + e.lp - Mul(e.time, e.disc), 2000 + Abs(e.obj) \div 5000))
  \cup Chk("paths are averaged over the configured number of support points", Range(e.sizes) = {e.supports})

\* ---- models with constant rates, where the objective is explicit
\* plain diffusion x = v / s with drift a; prior -(r1 a + r2 s); data e.d = <<<<dt, dv>>, ...>>
ItoObj(e, a, s) ==
  SumSeq([k \in DOMAIN e.d |->
    LET dt == e.d[k][1] x == Div(e.d[k][2], s) IN
    -Ln(s) - Half(Ln(Mul(TwoPi, dt))) - Half(Div(Sq(x), dt)) + Mul(a, x) - Half(Mul(Sq(a), dt))])
  - Mul(e.r[1], a) - Mul(e.r[2], s)
ItoFitBad(e) ==
  LET O == ItoObj(e, e.thi[1], e.thi[2])
  IN Chk("reported objective of the maximiser", Near(e.obj, O, 1500 + Abs(O) \div 2000))
     \cup Chk("the objective is not below that of the starting point", O >= ItoObj(e, e.from[1], e.from[2]) - 1500)
ItoPoor(e) ==
  LET O == ItoObj(e, e.thi[1], e.thi[2])
      Nb == {<<e.thi[1] + dx, e.thi[2] + dy>> : dx \in {-100000, -20000, 0, 20000, 100000}, dy \in {-100000, -20000, 0, 20000, 100000}}
      Ok(p) == p[2] > 20000 /\ InBuffered(p[1], e.lb[1], e.ub[1], e.buf) /\ InBuffered(p[2], e.lb[2], e.ub[2], e.buf)
  IN IF \A p \in {q \in Nb : Ok(q)} : ItoObj(e, p[1], p[2]) <= O + 1500 THEN 0 ELSE 1

\* switching: d[j] = pieces <<dt, dv, regime>> of particle j; drift a, volatility s per regime, flat prior
Of(d, i) == [j \in DOMAIN d |-> SelectSeq(d[j], LAMBDA q : q[3] = i - 1)]
PieceObj(q, a, s) == LET r == q[2] - Mul(a, q[1]) w == Mul(Sq(s), q[1]) IN -Half(Ln(Mul(TwoPi, w))) - Half(Div(Sq(Div(r, s)), q[1]))
RegObj(d, a, s) == SumSeq([j \in DOMAIN d |-> SumSeq([k \in DOMAIN d[j] |-> PieceObj(d[j][k], a, s)])])
CountOf(e, i, j) == SumSeq([k \in DOMAIN e.mv |-> e.mv[k][i][j]])
GenBad(e) ==
  LET n == Len(e.lam) K == Len(e.mv)
      A(i, j) == CountOf(e, i, j) * (One \div K) + e.a0 - One
      B(i) == SumSeq([k \in 1..K |-> Div(e.hold[k][i], K * One)]) + e.b0
  IN Chk("rows of the generator sum to zero", \A i \in 1..n : Near(SumSeq(e.lam[i]), 0, 20))
     \cup Chk("rates are not negative", \A i, j \in 1..n : i # j => e.lam[i][j] >= 0)
     \cup Chk("the generator step is the closed-form maximiser for the sampled regime paths",
              \A i, j \in 1..n : i # j => Close(e.lam[i][j], Div(Max2(0, A(i, j)), B(i)), 60, 60))
GenObj(e) ==
  LET n == Len(e.lam) K == Len(e.mv)
      F(i, j) == IF i = j THEN 0 ELSE
        LET q == e.lam[i][j] c == CountOf(e, i, j) IN
        (IF c = 0 THEN 0 ELSE Div(c * Ln(q), K * One)) - SumSeq([k \in 1..K |-> Div(Mul(e.hold[k][i], q), K * One)])
        + Mul(e.a0 - One, IF e.a0 = One THEN 0 ELSE Ln(q)) - Mul(e.b0, q)
  IN SumSeq([i \in 1..n |-> SumSeq([j \in 1..n |-> F(i, j)])])
SwFitBad(e) ==
  LET n == Len(e.thi) K == Len(e.d)
      D == TLCEval([i \in 1..n |-> Of(e.d, i)])
      Obj(i, a, s) == Div(RegObj(D[i], a, s), K * One)
      O == TLCEval([i \in 1..n |-> Obj(i, e.thi[i][1], e.thi[i][2])])
      T == SumSeq(O) + GenObj(e)
  IN Chk("reported objective of the maximiser", Near(e.obj, T, 3000 + Abs(T) \div 1000))
     \cup Chk("the objective of a regime is not below that of the starting point",
              \A i \in 1..n : O[i] >= Obj(i, e.from[i][1], e.from[i][2]) - 1500 - Abs(O[i]) \div 1000)
SwPoor(e) ==
  LET n == Len(e.thi) K == Len(e.d)
      D == TLCEval([i \in 1..n |-> Of(e.d, i)])
      Obj(i, a, s) == Div(RegObj(D[i], a, s), K * One)
      O == TLCEval([i \in 1..n |-> Obj(i, e.thi[i][1], e.thi[i][2])])
      Nb(i) == {<<e.thi[i][1] + dx, e.thi[i][2] + dy>> : dx \in {-100000, 0, 100000}, dy \in {-50000, 0, 50000}}
      Ok(p) == p[2] > 20000 /\ InBuffered(p[1], e.lb[1], e.ub[1], e.buf) /\ InBuffered(p[2], e.lb[2], e.ub[2], e.buf)
  IN Cardinality({i \in 1..n : \E p \in {q \in Nb(i) : Ok(q)} : Obj(i, p[1], p[2]) > O[i] + 1500 + Abs(O[i]) \div 1000})

\* ---- standard errors: inverse of the observed information (average Hessian minus covariance of the scores)
Mean(f, K) == Div(SumSeq([j \in 1..K |-> f[j]]), K * One)
InfoOf(e) ==
  LET K == Len(e.d) a == e.thi[1] s == e.thi[2]
      S(j, F(_)) == SumSeq([k \in DOMAIN e.d[j] |-> F(e.d[j][k])])
      R(q) == Div(q[2] - Mul(a, q[1]), s)                         \* standardised residual times sqrt(dt)
      ga == [j \in 1..K |-> S(j, LAMBDA q : Div(R(q), s))]
      gs == [j \in 1..K |-> S(j, LAMBDA q : Div(Div(Sq(R(q)), q[1]) - One, s))]
      haa == [j \in 1..K |-> S(j, LAMBDA q : Div(Div(q[1], s), s))]
      has == [j \in 1..K |-> S(j, LAMBDA q : 2 * Div(Div(R(q), s), s))]
      hss == [j \in 1..K |-> S(j, LAMBDA q : Div(Div(3 * Div(Sq(R(q)), q[1]) - One, s), s))]
      C(f, g) == LET m == Mean(f, K) p == Mean(g, K) IN Div(SumSeq([j \in 1..K |-> Mul((f[j] - m) \div 8, (g[j] - p) \div 8)]), (K - 1) * One)
  IN [aa |-> Mean(haa, K) - 64 * C(ga, ga), as |-> Mean(has, K) - 64 * C(ga, gs), ss |-> Mean(hss, K) - 64 * C(gs, gs)]
SeBad(e, I0) ==
  LET all == Abs(I0.aa) + Abs(I0.ss) + Abs(I0.as)
      c == IF all > 20000000 THEN all \div 10000000 ELSE 1         \* scaled to keep the determinant in range
      I == [aa |-> I0.aa \div c, as |-> I0.as \div c, ss |-> I0.ss \div c]
      det == Mul(I.aa, I.ss) - Sq(I.as)
      big == Abs(I.aa) + Abs(I.ss) + Abs(I.as)
      clear == Abs(det) > 20000 + Mul(big, 5000) /\ big < 300000000
      pos == Div(I.ss, det) > 0 /\ Div(I.aa, det) > 0
  IN IF e.edge THEN Chk("no standard error on the boundary", e.none)
     ELSE IF ~clear THEN {}
     ELSE IF e.none THEN Chk("standard errors are given where the information is positive", ~pos)
     ELSE Chk("standard errors only where the information is positive", pos)
          \cup Chk("standard errors invert the observed information",
                   /\ Close(e.se[1][1], Div(I.ss, det) \div c, 1000, 20000) /\ Close(e.se[2][2], Div(I.aa, det) \div c, 1000, 20000)
                   /\ Close(e.se[1][2], Div(-I.as, det) \div c, 1000, 20000) /\ Near(e.se[1][2], e.se[2][1], 1000))

\* plain diffusion x = v / s: information of the explicit likelihood (the same for all hidden paths)
ItoInfo(e) ==
  LET a == e.thi[1] s == e.thi[2]
      S(F(_)) == SumSeq([k \in DOMAIN e.d |-> F(e.d[k])])
      x(q) == Div(q[2], s)
  IN [aa |-> S(LAMBDA q : q[1]), as |-> S(LAMBDA q : Div(x(q), s)),
      ss |-> S(LAMBDA q : Div(Div(3 * Div(Sq(x(q)), q[1]) - 2 * Mul(a, x(q)) - One, s), s))]

Step(s, e) ==
  CASE e.ev = "Begin" -> [st |-> InitSt, bad |-> {}]
    [] e.ev = "Start" -> [st |-> BeginSt(e), bad |-> {}]
    [] e.ev = "Aug" -> [st |-> [s EXCEPT !.sweeps = @ + 1, !.org = IF s.sweeps = -1 THEN <<0, [k \in 1..e.n |-> 0]>> ELSE @], bad |-> AugBad(s, e)]
    [] e.ev = "Lam" -> [st |-> s, bad |-> LamBad(s, e)]
    [] e.ev = "Yield" -> [st |-> YieldSt(s, e), bad |-> YieldBad(s, e)]
    [] e.ev = "Stop" -> [st |-> [s EXCEPT !.over = TRUE], bad |-> StopBad(s, e)]
    [] e.ev = "Obj" -> [st |-> s, bad |-> ObjBad(e)]
    [] e.ev = "ItoFit" -> [st |-> [s EXCEPT !.fits = @ + 1, !.poor = @ + ItoPoor(e)], bad |-> ItoFitBad(e)]
    [] e.ev = "Gen" -> [st |-> s, bad |-> GenBad(e)]
    [] e.ev = "SwFit" -> [st |-> [s EXCEPT !.fits = @ + Len(e.thi), !.poor = @ + SwPoor(e)], bad |-> SwFitBad(e) \cup GenBad(e)]
    [] e.ev = "Fits" -> [st |-> s, bad |->    \* the numerical optimiser may give up once in a while
         Chk("parameters within the buffered bounds have a higher objective than the maximiser", s.fits < 3 \/ 2 * s.poor <= s.fits + 2)]
    [] e.ev = "Se" -> [st |-> s, bad |-> SeBad(e, TLCEval(InfoOf(e)))]
    [] e.ev = "ItoSe" -> [st |-> s, bad |-> SeBad(e, TLCEval(ItoInfo(e)))]
    [] e.ev = "Exc" -> [st |-> s, bad |-> {"exception: " \o e.what}]
    [] OTHER -> [st |-> s, bad |-> {"unknown event"}]
Init == l = 1 /\ st = InitSt
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET o == Step(st, Trace[l]) IN st' = o.st /\ Report(l, o.bad)
Spec == Init /\ [][Next]_<<l, st>>
Accepted == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
