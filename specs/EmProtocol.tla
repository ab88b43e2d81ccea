----------------------------- MODULE EmProtocol -----------------------------
(***************************************************************************)
(* Monte Carlo EM as an iteration protocol.                                *)
(*                                                                         *)
(* An iteration starts from the latest parameter and the latest hidden     *)
(* state, makes `n * thin` sweeps of the hidden state at that parameter,   *)
(* keeps one state out of `thin`, then replaces the parameter by the       *)
(* maximiser of the average augmented log likelihood plus log prior over   *)
(* the buffered bounds.  The number of kept states grows by a fixed rule;  *)
(* the loop ends when the objective moved by less than the tolerance.      *)
(***************************************************************************)
EXTENDS Fixed

\* floor((n^(1/lr) + 1)^lr), with both answers if the value is within rounding of an integer
Grow(n, lr) == IF n = 1 THEN Exp(Mul(lr, Ln2)) ELSE
  Exp(Mul(lr, Ln(Exp(Div(Ln(n * One), lr)) + One)))
NextCounts(n, lr) == LET x == Grow(n, lr) d == 200 + (x \div 2000) IN {(x - d) \div One, (x + d) \div One}

\* stopping rule; objectives closer to the tolerance than rounding may go either way
Moved(a, b) == Abs(a - b)
MayStop(a, b, tol) == Moved(a, b) < tol + 3
MayGoOn(a, b, tol) == Moved(a, b) >= tol - 3

\* bounds shrunk by the buffer, at most to their middle; infinite bounds stay
Buffer(lb, ub, buf) == IF ~Fin(lb) \/ ~Fin(ub) THEN buf ELSE Min2(Half(ub - lb), buf)
InBuffered(x, lb, ub, buf) ==
  LET d == Buffer(lb, ub, buf) IN (Fin(lb) => x >= lb + d - 3) /\ (Fin(ub) => x <= ub - d + 3)
InBounds(x, lb, ub) == (Fin(lb) => x >= lb - 3) /\ (Fin(ub) => x <= ub + 3)

\* maximiser of a ln(x) - b x, the profile of one rate of the generator with a events in time b
RateMode(a, b) == Div(a, b)
RateProfile(a, b, x) == Mul(a, Ln(x)) - Mul(b, x)
=============================================================================
