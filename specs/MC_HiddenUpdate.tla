--------------------------- MODULE MC_HiddenUpdate ---------------------------
(***************************************************************************)
(* Section-wise updates of a hidden regime sequence y_1..y_N seen at the   *)
(* observation times.  Given any set of conditioning times the sections    *)
(* are proposed from the prior given their ends and kept or replaced       *)
(* independently.  Protocol over repeated sweeps; and, in exact integer    *)
(* arithmetic, invariance of prior times likelihood under a whole sweep.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, K, GMax
VARIABLES y, cond, phase, keep
Reg == 1..K
Ys == TLCEval([1..N -> Reg])
\* neighbouring conditioning times (and ends); an interior sequence element belongs to one section
Cut(c) == LET S == c \cup {0, N + 1} IN {s \in S \X S : s[1] < s[2] /\ \A x \in S : ~(s[1] < x /\ x < s[2])}
SecOf(c, k) == CHOOSE s \in Cut(c) : s[1] < k /\ k < s[2]

Init == y \in Ys /\ cond = {} /\ phase = "idle" /\ keep = y
Propose == /\ phase = "idle" /\ cond' \in SUBSET (2..(N - 1))
           /\ \E p \in Ys : (\A k \in cond' : p[k] = y[k]) /\ keep' = p
           /\ phase' = "decide" /\ y' = y
Decide == /\ phase = "decide"
          /\ \E acc \in SUBSET Cut(cond) :
               y' = [k \in 1..N |-> IF k \notin cond /\ SecOf(cond, k) \in acc THEN keep[k] ELSE y[k]]
          /\ phase' = "idle" /\ cond' = {} /\ keep' = y'
Next == Propose \/ Decide
vars == <<y, cond, phase, keep>>
Spec == Init /\ [][Next]_vars
Stays == [][phase = "decide" => \A k \in cond : y'[k] = y[k]]_vars
Whole == [][phase = "decide" => \A s \in Cut(cond) : LET I == {k \in 1..N : s[1] < k /\ k < s[2]} IN
              (\A k \in I : y'[k] = y[k]) \/ (\A k \in I : y'[k] = keep[k])]_vars
TypeOk == y \in Ys

(* Three observation times, two regimes, cut in the middle.  w: prior weights of the left end given the middle
   (m q) and of the right end (q); likelihood of a section = h * r, h judged first and r by coins (or both at once). *)
Two == 1..2
Pr == TLCEval([Two -> 1..3])
Lk == TLCEval([Two -> [Two -> 1..GMax]])        \* <<h, r>> per value of the free end
Acc(pre, L, u, v) == IF pre THEN [n |-> L[v][1] * L[v][2], d |-> (L[1][1] + L[2][1]) * (L[1][2] + L[2][2])]
                     ELSE [n |-> L[v][1] * L[v][2], d |-> L[1][1] * L[1][2] + L[2][1] * L[2][2]]
Den(pre, w, L) == (w[1] + w[2]) * Acc(pre, L, 1, 2).d
\* transition of the free end over the common denominator: proposed v and accepted, or kept
Kern(pre, w, L, u, v) == LET move == w[3 - u] * Acc(pre, L, u, 3 - u).n
                         IN IF v = 3 - u THEN move ELSE Den(pre, w, L) - move
Target(w, L, u) == w[u] * L[u][1] * L[u][2]
SumPairs(F(_, _)) == F(1, 1) + F(1, 2) + F(2, 1) + F(2, 2)
Invariant(pre, wl, wr, Ll, Lr) == \A v1, v3 \in Two :
  LET in(u1, u3) == Target(wl, Ll, u1) * Target(wr, Lr, u3) * Kern(pre, wl, Ll, u1, v1) * Kern(pre, wr, Lr, u3, v3)
  IN SumPairs(in) = Target(wl, Ll, v1) * Target(wr, Lr, v3) * Den(pre, wl, Ll) * Den(pre, wr, Lr)
\* leaving out one part of the weight does not keep the target
Wrong(wl, wr, Ll, Lr) == \A v1, v3 \in Two :
  LET half(L) == [u \in Two |-> <<L[u][1], 1>>]
      in(u1, u3) == Target(wl, Ll, u1) * Target(wr, Lr, u3) * Kern(FALSE, wl, half(Ll), u1, v1) * Kern(FALSE, wr, Lr, u3, v3)
  IN SumPairs(in) = Target(wl, Ll, v1) * Target(wr, Lr, v3) * Den(FALSE, wl, half(Ll)) * Den(FALSE, wr, Lr)
L1 == TLCEval([Two -> 1..GMax])
ASSUME \A pre \in BOOLEAN, wl \in Pr, wr \in {<<1, 2>>, <<3, 1>>}, Ll \in Lk, a \in L1 :
         Invariant(pre, wl, wr, Ll, [u \in Two |-> <<a[u], 1 + (u % 2)>>])
ASSUME ~Wrong(<<1, 1>>, <<1, 1>>, <<<<1, 1>>, <<1, 2>>>>, <<<<1, 1>>, <<1, 1>>>>)
=============================================================================
