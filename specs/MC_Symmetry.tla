----------------------------- MODULE MC_Symmetry -----------------------------
EXTENDS Symmetry, FiniteSets, TLC, Json, IOUtils, SequencesExt
CONSTANTS T, XMax, N
VARIABLE c
Vals == (-XMax)..XMax
Incr(k) == {t \in [1..k -> 0..T] : \A i \in 1..(k - 1) : t[i] < t[i + 1]}
Full(k) == {t \in Incr(k) : t[1] = 0 /\ t[k] = T}
Plain == {[t |-> t, x |-> x] : <<t, x>> \in UNION {Incr(k) \X [1..k -> Vals] : k \in 0..(N - 1)}}
\* layered paths with minimum at tight: tight <= x, hit and loose above the ends
Layered == {s \in UNION {[t : Full(k), x : [1..k -> Vals], tight : Vals, loose : Vals, hit : Vals, hi : [1..(k - 1) -> BOOLEAN]] : k \in 3..N} :
             /\ \E i \in 2..(Len(s.x) - 1) : s.x[i] = s.tight
             /\ \A i \in DOMAIN s.x : s.tight <= s.x[i] /\ s.x[i] < s.loose
             /\ s.hit < s.loose /\ s.x[1] <= s.hit /\ s.x[Len(s.x)] <= s.hit}
Init == c \in [k : {"plain"}, p : Plain] \cup [k : {"lay"}, p : Layered]
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
Involution == c.k = "plain" => /\ Reverse(Reverse(c.p, T), T) = c.p
                               /\ \A a \in Vals : Reflect(Reflect(c.p, a), a) = c.p
Order == c.k = "plain" => Sorted(Reverse(c.p, T).t)
Commute == c.k = "plain" => \A a \in Vals : Reflect(Reverse(c.p, T), a) = Reverse(Reflect(c.p, a), T)
FlipTwice == c.k = "lay" => Flip(Flip(c.p)) = c.p
FlipEnds == c.k = "lay" => LET f == Flip(c.p) n == Len(c.p.x) IN
   /\ f.x[1] = c.p.x[1] /\ f.x[n] = c.p.x[n] /\ f.t[1] = 0 /\ f.t[n] = T /\ Sorted(f.t)
FlipRoles == c.k = "lay" => LET f == Flip(c.p) IN
   /\ \A i \in DOMAIN f.x : f.loose < f.x[i] /\ f.x[i] <= f.tight
   /\ \E i \in 2..(Len(f.x) - 1) : f.x[i] = f.tight
   /\ f.loose < f.hit /\ f.hit <= f.x[1] /\ f.hit <= f.x[Len(f.x)]
FlipIsBoth == c.k = "lay" => LET m == [t |-> c.p.t, x |-> [i \in DOMAIN c.p.x |-> 2 * c.p.x[i]]]
                                 r == Reflect(Reverse(m, T), c.p.x[1] + c.p.x[Len(c.p.x)]) IN
   /\ r.t = Flip(c.p).t /\ \A i \in DOMAIN r.x : r.x[i] = 2 * Flip(c.p).x[i]
\* a bridge keeps its shape: pivoting sends 0 and 1 to the ends, and reversing a pivoted bridge pivots the reversed one
PivotEnds == c.k = "plain" /\ Len(c.p.t) >= 2 /\ c.p.t[1] = 0 /\ c.p.t[Len(c.p.t)] = T =>
   \A x0 \in Vals, x1 \in Vals, r \in 1..2 :
     LET n == Len(c.p.t) z == [i \in DOMAIN c.p.x |-> IF i \in {1, n} THEN 0 ELSE c.p.x[i]] x == PivotX(c.p.t, z, r, x0, x1, T)
         rv == Reverse([t |-> c.p.t, x |-> z], T)
     IN /\ x[1] = T * x0 /\ x[n] = T * x1
        /\ Rev(x) = PivotX(rv.t, rv.x, r, x1, x0, T)
        /\ Reflect([t |-> c.p.t, x |-> x], 0).x = PivotX(c.p.t, [i \in DOMAIN z |-> -z[i]], r, -x0, -x1, T)
ASSUME LET w == IOEnv.WORK IN
  /\ ndJsonSerialize(w \o "/cases_plain.ndjson", SetToSeq(Plain))
  /\ ndJsonSerialize(w \o "/cases_lay.ndjson", SetToSeq(Layered))
===============================================================================
