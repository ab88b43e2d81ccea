---------------------------- MODULE MC_BridgeLaw ----------------------------
(***************************************************************************)
(* Revealing a bridge in any order.  The discrete analogue, in exact       *)
(* arithmetic: +-1 walks of N steps from A to B that stay in [0, H).  A    *)
(* step reveals the walk at one more time, given only the neighbouring     *)
(* known points; num/den is the probability of everything revealed so far. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, H, A, B
VARIABLES known, num, den      \* known: set of <<time, position>>
vars == <<known, num, den>>

RECURSIVE Cnt(_, _, _)          \* walks of n steps from x to y inside [0, H)
Cnt(n, x, y) == IF x < 0 \/ x >= H THEN 0 ELSE IF n = 0 THEN (IF x = y THEN 1 ELSE 0) ELSE Cnt(n - 1, x + 1, y) + Cnt(n - 1, x - 1, y)
C == TLCEval([n \in 0..N, x \in 0..(H - 1), y \in 0..(H - 1) |-> Cnt(n, x, y)])

Before(t) == CHOOSE p \in known : p[1] < t /\ \A q \in known : q[1] < t => q[1] <= p[1]
After(t) == CHOOSE p \in known : p[1] > t /\ \A q \in known : q[1] > t => q[1] >= p[1]
Init == known = {<<0, A>>, <<N, B>>} /\ num = 1 /\ den = 1
Reveal(t, x) ==
  /\ ~\E p \in known : p[1] = t
  /\ LET p == Before(t) q == After(t)
         w == C[t - p[1], p[2], x] * C[q[1] - t, x, q[2]]
     IN w > 0 /\ num' = num * w /\ den' = den * C[q[1] - p[1], p[2], q[2]]
  /\ known' = known \cup {<<t, x>>}
Next == \E t \in 1..(N - 1), x \in 0..(H - 1) : Reveal(t, x)
Spec == Init /\ [][Next]_vars

\* number of whole walks through all known points, computed without regard to the order of revealing
RECURSIVE Through(_)
Through(S) == IF Cardinality(S) = 1 THEN 1
              ELSE LET p == CHOOSE a \in S : \A b \in S : a[1] <= b[1]
                       R == S \ {p}
                       q == CHOOSE a \in R : \A b \in R : a[1] <= b[1]
                   IN C[q[1] - p[1], p[2], q[2]] * Through(R)
OrderDoesNotMatter == num * C[N, A, B] = den * Through(known)
\* the chances of the values at a time add up to one
Proper == \A t \in 1..(N - 1) : ~(\E p \in known : p[1] = t) =>
   LET p == Before(t) q == After(t)
       S[x \in 0..H] == IF x = 0 THEN 0 ELSE S[x - 1] + C[t - p[1], p[2], x - 1] * C[q[1] - t, x - 1, q[2]]
   IN S[H] = C[q[1] - p[1], p[2], q[2]]
\* method of images: walks inside (-1, H) = free walks over the images of the end point with signs
RECURSIVE Binom(_, _)
Binom(n, k) == IF k < 0 \/ k > n THEN 0 ELSE IF k = 0 \/ k = n THEN 1 ELSE Binom(n - 1, k - 1) + Binom(n - 1, k)
FreeWalks(n, d) == IF (n + d) % 2 # 0 THEN 0 ELSE Binom(n, (n + d) \div 2)
Im(n, x, y) == LET w == H + 1 S[k \in 0..7] == IF k = 0 THEN 0 ELSE S[k - 1] + FreeWalks(n, y + 2 * (k - 4) * w - x) - FreeWalks(n, -2 - y + 2 * (k - 4) * w - x)
               IN S[7]
ASSUME \A n \in 0..N, x \in 0..(H - 1), y \in 0..(H - 1) : Cnt(n, x, y) = Im(n, x, y)
=============================================================================
