------------------------- MODULE Trace_MjpInference -------------------------
EXTENDS TraceBase, MjpInference
VARIABLES l, st
InitSt == [none |-> 0]
Sig == 6
Off(n) == {q \in (1..n) \X (1..n) : q[1] # q[2]}

UpdateBad(e) ==
  LET n == Len(e.alp) IN
  Chk("updated shapes: prior plus number of moves", \A q \in Off(n) : Near(e.alp1[q[1]][q[2]], PostAlp(e.p, e.alp, q[1], q[2]), 2))
  \cup Chk("updated rates: prior plus the whole time spent", \A q \in Off(n) : Near(e.bet1[q[1]][q[2]], PostBet(e.p, e.bet, e.unit, q[1], q[2]), 2))
  \cup Chk("arguments are left as they were", e.intact)
\* updating with the pieces one after another is updating with the path
PiecesBad(e) ==
  LET n == Len(e.alp) IN
  Chk("update is additive over the pieces of a cut path",
      \A q \in Off(n) : /\ Near(e.alp1[q[1]][q[2]], PostAlp(e.p, e.alp, q[1], q[2]), 2)
                        /\ Near(e.bet1[q[1]][q[2]], PostBet(e.p, e.bet, e.unit, q[1], q[2]), 4))
  \cup Chk("log likelihood is additive over the pieces of a cut path", Near(e.lik, LogLik(e.p, e.gen, e.unit), 400))
LikBad(e) == Chk("log likelihood of a path", Near(e.lik, LogLik(e.p, e.gen, e.unit), 400))
PriorBad(e) == Chk("log prior of a generator", Near(e.val, LogPrior(e.gen, e.alp, e.bet), 400))
EvBad(e) ==
  Chk("expected rates", \A q \in Off(Len(e.gen)) : Close(e.gen[q[1]][q[2]], Div(e.alp[q[1]][q[2]], e.bet[q[1]][q[2]]), 5, 5))
  \cup Chk("rows of the expected generator sum to zero", RowsZero(e.gen, 20))
ModeBad(e) ==
  Chk("most likely rates", \A q \in Off(Len(e.gen)) : Close(e.gen[q[1]][q[2]], Div(e.alp[q[1]][q[2]] - One, e.bet[q[1]][q[2]]), 5, 5))
  \cup Chk("rows of the most likely generator sum to zero", RowsZero(e.gen, 20))
DrawBad(e) == Chk("drawn generator: positive rates, rows sum to zero",
                  RowsZero(e.gen, 20) /\ \A q \in Off(Len(e.gen)) : e.gen[q[1]][q[2]] >= 0)

\* gamma law with integer shape: P(X <= x) = P(Poisson(bet x) >= alp)
RECURSIVE PoisTerm(_, _), PoisCdf(_, _)
PoisTerm(mu, k) == IF k = 0 THEN Exp(-mu) ELSE (Mul(PoisTerm(mu, k - 1), mu) + k \div 2) \div k
PoisCdf(mu, k) == IF k < 0 THEN 0 ELSE IF k = 0 THEN PoisTerm(mu, 0) ELSE PoisCdf(mu, k - 1) + PoisTerm(mu, k)
GammaCdf(x, a, b) == One - PoisCdf(Mul(b, x), a - 1)
\* rates drawn after observing e.p, two of them jointly (they are independent)
GammaBad(e) ==
  LET P(k) == LET q == e.pair[k] IN GammaCdf(e.x[k], (PostAlp(e.p, e.alp, q[1], q[2])) \div One, PostBet(e.p, e.bet, e.unit, q[1], q[2]))
  IN Chk("drawn rates follow the updated gamma law", \A k \in 1..2 : FreqOk(e.k[k], e.n, P(k), Sig))
     \cup Chk("drawn rates are independent", FreqOk(e.both, e.n, Mul(P(1), P(2)), Sig))

Step(s, e) ==
  [st |-> s,
   bad |-> CASE e.ev = "Begin" -> {}
             [] e.ev = "Update" -> UpdateBad(e)
             [] e.ev = "Pieces" -> PiecesBad(e)
             [] e.ev = "Lik" -> LikBad(e)
             [] e.ev = "Prior" -> PriorBad(e)
             [] e.ev = "Expected" -> EvBad(e)
             [] e.ev = "Mode" -> ModeBad(e)
             [] e.ev = "Draw" -> DrawBad(e)
             [] e.ev = "Gamma" -> GammaBad(e)
             [] e.ev = "Exc" -> {"exception: " \o e.what}
             [] OTHER -> {"unknown event"}]
Init == l = 1 /\ st = InitSt
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET o == Step(st, Trace[l]) IN st' = o.st /\ Report(l, o.bad)
Spec == Init /\ [][Next]_<<l, st>>
Accepted == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
