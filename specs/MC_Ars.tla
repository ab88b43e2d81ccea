------------------------------- MODULE MC_Ars -------------------------------
(***************************************************************************)
(* Adaptive rejection sampling on the integer grid 0..M for every concave  *)
(* integer log-density (base 2), every choice of supporting slopes, every  *)
(* pair of starting points and every sequence of proposals and tests.      *)
(* Up and Lo are the hulls; the proposal is drawn in proportion to 2^Up    *)
(* and compared with one of the 2^K levels.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS M, K, MaxPoints, Down, Upw
Slopes == (-Down)..Upw
VARIABLES f, sup, ndraw, last
vars == <<f, sup, ndraw, last>>

\* f is given by its increments, which do not increase
Incr == {d \in [1..M -> Slopes] : \A i \in 1..(M - 1) : d[i + 1] <= d[i]}
RECURSIVE SumTo(_, _)
SumTo(d, n) == IF n = 0 THEN 0 ELSE d[n] + SumTo(d, n - 1)
Concave == {[i \in 0..M |-> SumTo(d, i)] : d \in Incr}
\* the slope used in a support point: right increment (left one at the end)
Dx(i) == IF i < M THEN f[i + 1] - f[i] ELSE f[i] - f[i - 1]
Tan(i, z) == f[i] + (z - i) * Dx(i)
Up(z) == CHOOSE u \in {Tan(i, z) : i \in sup} : \A i \in sup : u <= Tan(i, z)
Inside(z) == (\E i \in sup : i <= z) /\ (\E i \in sup : i >= z)
LeftOf(z) == CHOOSE i \in sup : i <= z /\ \A j \in sup : j <= z => j <= i
RightOf(z) == CHOOSE i \in sup : i >= z /\ \A j \in sup : j >= z => j >= i
\* the chord lies below level h
ChordAtMost(z, h) == LET i == LeftOf(z) j == RightOf(z) IN
                     IF i = j THEN f[i] <= h ELSE (j - z) * f[i] + (z - i) * f[j] <= h * (j - i)
Init == /\ f \in Concave
        /\ sup \in {s \in SUBSET (0..M) : Cardinality(s) = 2}
        /\ ndraw = 0 /\ last = -1
\* level v of 0..2^K-1 passes a ratio 2^r when v < 2^(K+r)
RECURSIVE P2(_)
P2(n) == IF n <= 0 THEN 1 ELSE 2 * P2(n - 1)
Pass(v, r) == IF K + r < 0 THEN FALSE ELSE v < P2(K + r)
PassChord(z, v) == Inside(z) /\ \E h \in (-12)..12 : ChordAtMost(z, h) /\ ~ChordAtMost(z, h - 1) /\ Pass(v, h - 1 - Up(z))
Try(z, v) ==
  IF PassChord(z, v) \/ Pass(v, f[z] - Up(z)) THEN ndraw' = ndraw + 1 /\ last' = z /\ UNCHANGED <<f, sup>>
  ELSE /\ sup' = IF Cardinality(sup) < MaxPoints THEN sup \cup {z} ELSE sup
       /\ last' = -1 /\ UNCHANGED <<f, ndraw>>
Next == ndraw < 1 /\ \E z \in 0..M, v \in 0..(P2(K) - 1) : Try(z, v)
Spec == Init /\ [][Next]_vars

Hulls == \A z \in 0..M : Up(z) >= f[z] /\ (Inside(z) => ChordAtMost(z, f[z]))
Budget == Cardinality(sup) <= MaxPoints
\* the squeeze never changes the decision
Squeeze == \A z \in 0..M, v \in 0..(P2(K) - 1) : PassChord(z, v) => Pass(v, f[z] - Up(z))
\* accepted draws: 2^Up(z) proposals times 2^(K + f - Up) levels, whatever the hull
Exact == \A z \in 0..M : f[z] - Up(z) >= -K => P2(Up(z) + 20) * Cardinality({v \in 0..(P2(K) - 1) : Pass(v, f[z] - Up(z))}) = P2(K + f[z] + 20)
=============================================================================
