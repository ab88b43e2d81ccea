------------------------------- MODULE MC_Ppp -------------------------------
(* Every way of revealing every point set on a small grid in batches of every size. *)
EXTENDS Ppp, FiniteSets, TLC
CONSTANTS G, MaxSize
VARIABLES s, got, target
vars == <<s, got, target>>
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE a \in S : \A b \in S : a <= b IN <<m>> \o Sorted(S \ {m})
\* target: the point set to be revealed, one second coordinate for each first coordinate
Init == /\ \E F \in SUBSET (1..(G - 1)) : \E f \in [F -> 1..2] :
              target = [i \in 1..Cardinality(F) |-> <<Sorted(F)[i], f[Sorted(F)[i]]>>]
        /\ \E m \in 1..MaxSize : s = Opened(m, <<0, 0>>, <<G, 3>>)
        /\ got = <<>>
Rest == SubSeq(target, Len(got) + 1, Len(target))
Next == \E k \in 1..Len(Rest) : LET b == SubSeq(Rest, 1, k) IN
          /\ CanDeliver(s, b)
          /\ (k < s.size => k = Len(Rest))       \* only the last batch may be short
          /\ s' = Deliver(s, b) /\ got' = got \o b /\ UNCHANGED target
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* what was delivered is the beginning of the point set, in order, and delivery never gets stuck before the end
Prefix == got = SubSeq(target, 1, Len(got)) /\ s.n = Len(got)
InOrder == \A i \in 1..(Len(got) - 1) : got[i][1] < got[i + 1][1]
ShortIsLast == s.short => got = target
NotStuck == got # target => ENABLED Next
Complete == <>[](got = target)
=============================================================================
