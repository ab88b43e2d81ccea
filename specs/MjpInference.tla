---------------------------- MODULE MjpInference ----------------------------
(***************************************************************************)
(* Sufficient statistics of a regime path and the conjugate gamma update   *)
(* of the rates.  Times in ticks of length `unit` (fixed point).           *)
(***************************************************************************)
EXTENDS Fixed, RegimePath, FiniteSets

States(n) == 0..(n - 1)
Counts(p, n) == [i \in 1..n |-> [j \in 1..n |-> Moves(p, i - 1, j - 1)]]
Holds(p, n) == [i \in 1..n |-> TimeIn(p, i - 1)]

\* posterior shape and rate of the i-to-j rate, off the diagonal
PostAlp(p, alp, i, j) == alp[i][j] + Moves(p, i - 1, j - 1) * One
PostBet(p, bet, unit, i, j) == bet[i][j] + TimeIn(p, i - 1) * unit

RECURSIVE SumSet(_, _)
SumSet(f, S) == IF S = {} THEN 0 ELSE LET m == CHOOSE a \in S : TRUE IN f[m] + SumSet(f, S \ {m})

Pairs(n) == {<<i, j>> \in (1..n) \X (1..n) : i # j}
\* log likelihood of a path: log rates of its moves minus time times exit rate
LogLik(p, gen, unit) ==
  LET n == Len(gen)
      prs == {q \in Pairs(n) : Moves(p, q[1] - 1, q[2] - 1) > 0}
      mv == [q \in prs |-> Moves(p, q[1] - 1, q[2] - 1) * Ln(gen[q[1]][q[2]])]
      hd == [i \in 1..n |-> Mul(TimeIn(p, i - 1) * unit, gen[i][i])]
  IN  SumSet(mv, prs) + SumSet(hd, 1..n)
\* log prior density of the rates, up to the normalising constant
LogPrior(gen, alp, bet) ==
  LET f == [q \in Pairs(Len(gen)) |-> Mul(alp[q[1]][q[2]] - One, Ln(gen[q[1]][q[2]])) - Mul(bet[q[1]][q[2]], gen[q[1]][q[2]])]
  IN SumSet(f, Pairs(Len(gen)))

RowsZero(gen, tol) == \A i \in DOMAIN gen : Near(SumSeq(gen[i]), 0, tol)
=============================================================================
