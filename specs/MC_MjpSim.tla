----------------------------- MODULE MC_MjpSim -----------------------------
(***************************************************************************)
(* Regime paths simulated under conditioning, as a state machine: a path   *)
(* is cut, every piece is regenerated keeping the states at the cuts       *)
(* (first piece: its last state, last piece: its first state), the pieces  *)
(* are pasted.  Explored exhaustively on a small grid of times.            *)
(***************************************************************************)
EXTENDS RegimePath, SequencesExt, TLC, Json, IOUtils
CONSTANTS Fin, NS
\* one row per state: cyclic moves plus the move back from 1 to 0
Pos == [i \in 1..NS |-> [j \in 1..NS |-> j = (i % NS) + 1 \/ (i = 2 /\ j = 1)]]
Admissible(p) == \A i \in 1..(Len(p.x) - 1) : p.x[i] # p.x[i + 1] /\ Pos[p.x[i] + 1][p.x[i + 1] + 1]

RECURSIVE StateSeqs(_)
StateSeqs(n) == IF n = 0 THEN {<<>>} ELSE {Append(s, x) : s \in StateSeqs(n - 1), x \in 0..(NS - 1)}
PathsOver(f) == {[t |-> <<0>> \o SetToSortedSeq(J), x |-> s, fin |-> f] :
                 J \in SUBSET (1..(f - 1)), s \in UNION {StateSeqs(k) : k \in 1..f}}
PathTable == [f \in 1..Fin |-> {p \in PathsOver(f) : Len(p.t) = Len(p.x) /\ Admissible(p)}]

ASSUME ndJsonSerialize(IOEnv.WORK \o "/cases_mutate.ndjson",
         SetToSeq({[p |-> p, b |-> SetToSortedSeq(B)] : p \in PathTable[Fin], B \in SUBSET (1..(Fin - 1))}))

VARIABLES p, cuts, old, parts, done
vars == <<p, cuts, old, parts, done>>
Init == p \in PathTable[Fin] /\ cuts = <<>> /\ old = <<>> /\ parts = <<>> /\ done = 0
Cut == done = 0 /\ \E B \in SUBSET (1..(Fin - 1)) :
         cuts' = SetToSortedSeq(B) /\ old' = Partition(p, cuts') /\ parts' = old' /\ done' = 1 /\ UNCHANGED p
Allowed(i) == {q \in PathTable[old[i].fin] : (i > 1 => q.x[1] = old[i].x[1]) /\ (i < Len(old) => EndState(q) = EndState(old[i]))}
Regen == done >= 1 /\ done <= Len(old) /\ \E q \in Allowed(done) :
           parts' = [parts EXCEPT ![done] = q] /\ done' = done + 1 /\ UNCHANGED <<p, cuts, old>>
Next == Cut \/ Regen
Spec == Init /\ [][Next]_vars

Complete == done > 0 /\ done = Len(old) + 1
New == Paste(parts)
\* the regenerated path is a path of the process with the same horizon, and agrees with the old one on both sides of every cut
Conditioned == Complete => /\ IsPath(New) /\ New.fin = Fin /\ Admissible(New)
                           /\ \A i \in DOMAIN cuts : StateAt(New, cuts[i]) = StateAt(p, cuts[i])
                                                     /\ LeftState(New, cuts[i]) = LeftState(p, cuts[i])
\* the old path itself is always possible again: regeneration can leave it unchanged
CanStay == done >= 1 /\ done <= Len(old) => old[done] \in Allowed(done)
=============================================================================
