-------------------------------- MODULE Adapt --------------------------------
(***************************************************************************)
(* Adaptive random-walk proposals: the map of a bounded parameter to the   *)
(* real line with its log-derivative, the adaptation schedule, running     *)
(* moments, and the law of a proposal.                                     *)
(***************************************************************************)
EXTENDS Fixed, FiniteSets

\* bounds: hl, hu say whether a finite lower or upper bound exists
Real(x, hl, a, hu, b) ==
  IF ~hl /\ ~hu THEN x ELSE IF ~hl THEN Ln(b - x) ELSE IF ~hu THEN Ln(x - a) ELSE Ln(x - a) - Ln(b - x)
LogDeriv(x, hl, a, hu, b) ==
  IF ~hl /\ ~hu THEN 0 ELSE IF ~hl THEN -Ln(b - x) ELSE IF ~hu THEN -Ln(x - a) ELSE Ln(b - a) - Ln(x - a) - Ln(b - x)
\* rounding of x to one unit shows in Real and LogDeriv as this many units
Grain(x, hl, a, hu, b) ==
  4 + (IF hl THEN Div(1, Max2(1, x - a)) ELSE 0) + (IF hu THEN Div(1, Max2(1, b - x)) ELSE 0)
Strict(x, hl, a, hu, b) == (hl => a < x) /\ (hu => x < b)

\* the k-th adaptation period (k = 1, 2, ...) has k^air observations and its end moves the log scale by at most (k+1)^(-decay)
RECURSIVE IPow(_, _)
IPow(b, n) == IF n = 0 THEN 1 ELSE b * IPow(b, n - 1)
PeriodLen(k, air) == IPow(k, air)
Rate(k, decay) == Exp(-Mul(decay, Ln((k + 1) * One)))
Mean(s) == SumSeq(s) \div Len(s)
\* possible moves at the end of period k, given the acceptance probabilities prev (last one before) and win (in the period)
Moves(kind, k, decay, opt, prev, win) ==
  LET r == Rate(k, decay) IN
  IF kind = "mjp" THEN {Mul(r, win[Len(win)] - opt), Mul(r, Mean(win) - opt), Mul(r, Mean(<<prev>> \o win) - opt)}
  ELSE {Mul(r, Mean(win) - opt), Mul(r, Mean(<<prev>> \o win) - opt)}

\* moments after n observations, sums are in raw units
BatchMean(obs, i) == Div(SumSeq([k \in DOMAIN obs |-> obs[k][i]]), Len(obs) * One)
BatchCov(obs, i, j) ==
  LET m == BatchMean(obs, i) q == BatchMean(obs, j)
  IN Div(SumSeq([k \in DOMAIN obs |-> Mul(obs[k][i] - m, obs[k][j] - q)]), (Len(obs) - 1) * One)
\* one step of the running moments after n observations
NextMean(n, m, x) == m + Div(x - m, (n + 1) * One)
NextCov(n, c, m, q, x, y) == Div((n - 1) * c, n * One) + Div(Mul(x - m, y - q), (n + 1) * One)
=============================================================================
