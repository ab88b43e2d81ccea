----------------------------- MODULE MC_Hitting -----------------------------
(***************************************************************************)
(* Exact discrete counterparts: every +-1 bridge walk is grown step by     *)
(* step; layers and extremes are read off it.  The counting formulas are   *)
(* those of the continuous case (images), and the search for the layer     *)
(* with one random number splits the walks as their ranges do.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, A, B
VARIABLES walk
Init == walk = <<A>>
Pos == walk[Len(walk)]
Next == /\ Len(walk) <= N
        /\ \E d \in {-1, 1} : LET y == Pos + d r == N - Len(walk) IN
             (IF y > B THEN y - B ELSE B - y) <= r /\ walk' = Append(walk, y)
Spec == Init /\ [][Next]_walk

Mn(w) == CHOOSE m \in {w[i] : i \in DOMAIN w} : \A i \in DOMAIN w : m <= w[i]
Mx(w) == CHOOSE m \in {w[i] : i \in DOMAIN w} : \A i \in DOMAIN w : m >= w[i]
Lo == IF A < B THEN A ELSE B
Hi == IF A < B THEN B ELSE A
\* layer i is the range from Lo - i to Hi + i
LayerOf(w) == CHOOSE i \in 0..N : Lo - i <= Mn(w) /\ Mx(w) <= Hi + i /\ (i = 0 \/ ~(Lo - i + 1 <= Mn(w) /\ Mx(w) <= Hi + i - 1))
\* an outer layer is entered on the lower side, on the upper side, or on both
Sides == Len(walk) = N + 1 /\ LayerOf(walk) > 0 => (Mn(walk) = Lo - LayerOf(walk)) \/ (Mx(walk) = Hi + LayerOf(walk))
LayersNest == Len(walk) = N + 1 => \A i \in 0..N : (i >= LayerOf(walk)) <=> (Lo - i <= Mn(walk) /\ Mx(walk) <= Hi + i)

RECURSIVE Walks(_, _)
Walks(n, x) == IF n = 0 THEN {<<x>>} ELSE UNION {{<<x>> \o w : w \in Walks(n - 1, x + 1)}, {<<x>> \o w : w \in Walks(n - 1, x - 1)}}
All == TLCEval({w \in Walks(N, A) : w[N + 1] = B})
RECURSIVE Binom(_, _)
Binom(n, k) == IF k < 0 \/ k > n THEN 0 ELSE IF k = 0 \/ k = n THEN 1 ELSE Binom(n - 1, k - 1) + Binom(n - 1, k)
Free(d) == IF (N + d) % 2 # 0 THEN 0 ELSE Binom(N, (N + d) \div 2)
\* minimum: one image; the two-sided band: all images
MinCount(c) == IF c >= Lo THEN Free(B - A) ELSE Free(2 * c - A - B)
BandCount(a, b) == LET w == b - a S[k \in 0..9] == IF k = 0 THEN 0 ELSE S[k - 1] + Free(B + 2 * (k - 5) * w - A) - Free(2 * a - B + 2 * (k - 5) * w - A)
                   IN S[9]
ASSUME \A c \in (Lo - N)..Hi : Cardinality({w \in All : Mn(w) <= c}) = MinCount(c)
ASSUME \A i \in 0..N : Cardinality({w \in All : LayerOf(w) <= i}) = BandCount(Lo - i - 1, Hi + i + 1)
\* search with one number u in 0..|All|-1: least i such that at most u walks leave layer i
Search(u) == CHOOSE i \in 0..N : Cardinality(All) - BandCount(Lo - i - 1, Hi + i + 1) <= u
                /\ \A k \in 0..(i - 1) : Cardinality(All) - BandCount(Lo - k - 1, Hi + k + 1) > u
ASSUME \A i \in 0..N : Cardinality({u \in 0..(Cardinality(All) - 1) : Search(u) = i}) = Cardinality({w \in All : LayerOf(w) = i})
=============================================================================
