-------------------------- MODULE MC_MjpInference --------------------------
(***************************************************************************)
(* Reading a path jump by jump accumulates its statistics; cutting the     *)
(* path anywhere except at a jump and adding the statistics of the pieces  *)
(* gives the same.  Exhaustive over all minimal paths of a small grid,     *)
(* which are also replayed into the implementation.                        *)
(***************************************************************************)
EXTENDS MjpInference, SequencesExt, TLC, Json, IOUtils
CONSTANTS T, NS
RECURSIVE StateSeqs(_)
StateSeqs(n) == IF n = 0 THEN {<<>>} ELSE {Append(s, x) : s \in StateSeqs(n - 1), x \in 0..(NS - 1)}
AllPaths == {p \in {[t |-> <<0>> \o SetToSortedSeq(J), x |-> s, fin |-> T] :
                    J \in SUBSET (1..(T - 1)), s \in UNION {StateSeqs(k) : k \in 1..T}} : Len(p.t) = Len(p.x) /\ Minimal(p)}
ASSUME ndJsonSerialize(IOEnv.WORK \o "/cases_paths.ndjson", SetToSeq(AllPaths))
VARIABLES p, pos, cnt, hold
vars == <<p, pos, cnt, hold>>
Zero == [i \in 1..NS |-> [j \in 1..NS |-> 0]]
Init == p \in AllPaths /\ pos = 0 /\ cnt = Zero /\ hold = [i \in 1..NS |-> 0]
\* read one tick
Tick == /\ pos < T /\ pos' = pos + 1 /\ UNCHANGED p
        /\ LET a == StateAt(p, pos) + 1 IN
             /\ hold' = [hold EXCEPT ![a] = @ + 1]
             /\ IF pos' < T /\ StateAt(p, pos') + 1 # a THEN cnt' = [cnt EXCEPT ![a][StateAt(p, pos') + 1] = @ + 1] ELSE UNCHANGED cnt
Next == Tick
Spec == Init /\ [][Next]_vars
Statistics == pos = T => cnt = Counts(p, NS) /\ hold = Holds(p, NS)
WholeTime == pos = T => SumSet(hold, 1..NS) = T
JumpsAt(u) == \E i \in DOMAIN p.t : p.t[i] = u
Additive == pos = 0 => \A B \in SUBSET {u \in 1..(T - 1) : ~JumpsAt(u)} :
  LET parts == Partition(p, SetToSortedSeq(B)) IN
    /\ \A i \in 1..NS : Holds(p, NS)[i] = SumSet([k \in DOMAIN parts |-> TimeIn(parts[k], i - 1)], DOMAIN parts)
    /\ \A i, j \in 1..NS : Moves(p, i - 1, j - 1) = SumSet([k \in DOMAIN parts |-> Moves(parts[k], i - 1, j - 1)], DOMAIN parts)
=============================================================================
