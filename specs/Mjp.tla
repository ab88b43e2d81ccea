-------------------------------- MODULE Mjp --------------------------------
(***************************************************************************)
(* Markov jump processes: admissible paths, transition matrices, laws of   *)
(* the states at given times under every kind of conditioning.             *)
(* States are 0 .. n-1; matrices are sequences of rows.                    *)
(***************************************************************************)
EXTENDS Fixed, RegimePath, TLC

(* ---- qualitative part: paths over an order of times (ticks or ranks) --- *)
\* moves only along positive rates, between different states
Admissible(p, pos) == \A i \in 1..(Len(p.x) - 1) : p.x[i] # p.x[i + 1] /\ pos[p.x[i] + 1][p.x[i + 1] + 1]
InStates(p, n) == \A i \in DOMAIN p.x : p.x[i] \in 0..(n - 1)
\* a simulated path: starts at the zero of the order, jump times strictly increase and lie inside the horizon
SimPath(p, zero, pos) ==
  /\ Len(p.t) = Len(p.x) /\ Len(p.t) >= 1 /\ p.t[1] = zero
  /\ \A i \in 1..(Len(p.t) - 1) : p.t[i] < p.t[i + 1]
  /\ (Len(p.t) > 1 => p.t[Len(p.t)] < p.fin)
  /\ InStates(p, Len(pos)) /\ Admissible(p, pos)

(* what regenerating the pieces of a cut path may do: q is allowed for parts[i] *)
MayReplace(parts, i, q) ==
  /\ q.fin = parts[i].fin
  /\ i > 1 => q.x[1] = parts[i].x[1]
  /\ i < Len(parts) => EndState(q) = EndState(parts[i])

(* ---- quantitative part -------------------------------------------------- *)
\* TLCEval forces the evaluation of a matrix; TLC would otherwise recompute its entries on every access
MatId(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN One ELSE 0]]
RECURSIVE Dot(_, _, _, _)
Dot(row, B, j, k) == IF k = 0 THEN 0 ELSE Mul(row[k], B[k][j]) + Dot(row, B, j, k - 1)
MatMul(A, B) == TLCEval([i \in DOMAIN A |-> TLCEval([j \in DOMAIN B[1] |-> Dot(A[i], B, j, Len(B))])])
MatAdd(A, B) == TLCEval([i \in DOMAIN A |-> TLCEval([j \in DOMAIN A[1] |-> A[i][j] + B[i][j]])])
MatDivN(A, n) == TLCEval([i \in DOMAIN A |-> TLCEval([j \in DOMAIN A[1] |-> Sgn(A[i][j]) * ((Abs(A[i][j]) + n \div 2) \div n)])])
MatScale(A, c) == TLCEval([i \in DOMAIN A |-> TLCEval([j \in DOMAIN A[1] |-> Mul(A[i][j], c)])])
RECURSIVE ExpTerms(_, _, _, _), MatSquare(_, _)
ExpTerms(M, term, acc, k) == IF k > 9 THEN acc
                             ELSE LET t == MatDivN(MatMul(term, M), k) IN ExpTerms(M, t, MatAdd(acc, t), k + 1)
MatSquare(A, k) == IF k = 0 THEN A ELSE MatSquare(MatMul(A, A), k - 1)
(* transition matrix exp(t G), |t G| up to about 8 *)
Trans(G, t) == IF t = 0 THEN MatId(Len(G))
               ELSE MatSquare(ExpTerms(MatDivN(MatScale(G, t), 8), MatId(Len(G)), MatId(Len(G)), 1), 3)

(* stationary law of a generator: exp(t G) for large t has all rows equal to it *)
RECURSIVE Settle(_, _)
Settle(P, k) == IF k = 0 THEN P[1] ELSE Settle(MatMul(P, P), k - 1)
Stationary(G) == LET r == Settle(Trans(G, One), 5)   \* rounding is repaired by normalising
                     tot == SumSeq(r) IN TLCEval([i \in DOMAIN r |-> Div(r[i], tot)])

(* probability of being in states x at the increasing times s (x[1] at time s[1], which may be 0), *)
(* given the law `ini` at time 0                                                                    *)
RECURSIVE PathProb(_, _, _, _)
PathProb(G, row, s, x) ==   \* row: law at the current time; s: remaining waiting times
  IF x = <<>> THEN SumSeq(row)
  ELSE LET nxt == MatMul(<<row>>, Trans(G, Head(s)))[1]
           keep == TLCEval([j \in DOMAIN row |-> IF j = Head(x) + 1 THEN nxt[j] ELSE 0])
       IN PathProb(G, keep, Tail(s), Tail(x))
Waits(s) == [i \in DOMAIN s |-> IF i = 1 THEN s[1] ELSE s[i] - s[i - 1]]
Point(n, a) == [j \in 1..n |-> IF j = a + 1 THEN One ELSE 0]
=============================================================================
