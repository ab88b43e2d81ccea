------------------------------ MODULE MC_Streams ------------------------------
(* All schedules of sections over workers, for all tapes: the outcome is the sequential one. *)
EXTENDS Streams, TLC
VARIABLES tape, pos, todo, busy, seen, done
vars == <<tape, pos, todo, busy, seen, done>>
Long == IF Shared THEN Len0 * Cardinality(Sections) ELSE Len0
Init == /\ tape \in [Streams -> [1..Long -> {0, 1}]]
        /\ pos = [s \in Streams |-> 1] /\ todo = Sections /\ busy = [w \in Workers |-> 0]
        /\ seen = [i \in Sections |-> <<>>] /\ done = {}
Take(w) == busy[w] = 0 /\ \E i \in todo : busy' = [busy EXCEPT ![w] = i] /\ todo' = todo \ {i} /\ UNCHANGED <<tape, pos, seen, done>>
Draw(w) == LET i == busy[w] IN
  /\ i # 0
  /\ LET s == StreamOf(i) v == tape[s][pos[s]] IN
     /\ pos' = [pos EXCEPT ![s] = @ + 1] /\ seen' = [seen EXCEPT ![i] = Append(@, v)]
     /\ IF v = 1 \/ Len(seen[i]) + 1 = Len0
        THEN busy' = [busy EXCEPT ![w] = 0] /\ done' = done \cup {i} ELSE UNCHANGED <<busy, done>>
     /\ UNCHANGED <<tape, todo>>
Next == \E w \in Workers : Take(w) \/ Draw(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* what the sections saw does not depend on the schedule
ScheduleFree == (done = Sections /\ ~Shared) => \A i \in Sections : seen[i] = Alone(tape[StreamOf(i)], 1)
\* and no number is used twice
NoReuse == \A s \in Streams : pos[s] - 1 = LET S == {i \in Sections : StreamOf(i) = s} IN
  IF Shared THEN pos[s] - 1 ELSE Len(seen[CHOOSE i \in S : TRUE])
AllDone == <>(done = Sections)
=============================================================================
