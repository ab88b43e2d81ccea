--------------------------- MODULE MC_PoissonCoin ---------------------------
(* Every point set with distinct marks on a small grid, every gap function, every batch size. *)
EXTENDS PoissonCoin
CONSTANTS M, T, MaxSize
VARIABLES s, pts, gap, size, pos
vars == <<s, pts, gap, size, pos>>
\* marks 0..M-1 sorted; a subset of marks, each with a time
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE a \in S : \A b \in S : a <= b IN <<m>> \o Sorted(S \ {m})
Init == /\ \E F \in SUBSET (0..(M - 1)) : \E f \in [F -> 1..T] :
              pts = [i \in 1..Cardinality(F) |-> <<Sorted(F)[i], f[Sorted(F)[i]]>>]
        /\ gap \in [1..T -> 0..M] /\ size \in 1..MaxSize /\ s = Fresh /\ pos = 0
Batch == ~s.over /\ pos < Len(pts) /\ LET n == IF pos + size > Len(pts) THEN Len(pts) ELSE pos + size IN
           s' = Look(s, SubSeq(pts, pos + 1, n), gap) /\ pos' = n /\ UNCHANGED <<pts, gap, size>>
End == ~s.over /\ pos = Len(pts) /\ s' = Finish(s) /\ UNCHANGED <<pts, gap, size, pos>>
Next == Batch \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* the decision depends neither on the batch size nor on the order of looking
Right == s.over => (s.ok <=> ~(\E i \in DOMAIN pts : Under(pts[i], gap)))
\* two-valued gaps: the decision is readable from the times looked at
TwoValued == \A t \in 1..T : gap[t] \in {0, M}
Readable == s.over /\ TwoValued => Decided(s.ok, [t \in s.seen |-> gap[t] = M])
Terminates == <>(s.over)
=============================================================================
