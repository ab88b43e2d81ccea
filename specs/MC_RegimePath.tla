--------------------------- MODULE MC_RegimePath ---------------------------
(***************************************************************************)
(* Exhaustive check of path surgery, and generator of the cases replayed   *)
(* into the implementation: every minimal path over the ticks 0..Fin with  *)
(* NS states is cut at every set of interior ticks, has one of its pieces  *)
(* replaced by any other path with the same end states (what conditioned   *)
(* regeneration may do), and is pasted again.                              *)
(***************************************************************************)
EXTENDS RegimePath, TLC, Json, IOUtils
CONSTANTS Fin, NS, Emit

RECURSIVE StateSeqs(_)
StateSeqs(n) == IF n = 0 THEN {<<>>}
                ELSE {Append(s, x) : s \in StateSeqs(n - 1), x \in 0..(NS - 1)}
PathsOver(f) == {[t |-> <<0>> \o SetToSortedSeq(J), x |-> s, fin |-> f] :
                 J \in SUBSET (1..(f - 1)), s \in UNION {StateSeqs(k) : k \in 1..f}}
AllPaths(f) == {p \in PathsOver(f) : Len(p.t) = Len(p.x) /\ Minimal(p)}
Breaks == SUBSET (1..(Fin - 1))

Cases == {[p |-> p, b |-> SetToSortedSeq(B)] : p \in AllPaths(Fin), B \in Breaks}
RECURSIVE S2S(_)
S2S(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE a \in S : TRUE IN <<m>> \o S2S(S \ {m})
PathTable == [f \in 1..Fin |-> AllPaths(f)]
ASSUME ~Emit \/ ndJsonSerialize(IOEnv.WORK \o "/cases_cuts.ndjson",
                                S2S({[p |-> p, b |-> <<>>] : p \in AllPaths(Fin)}))

VARIABLES p, parts, orig
vars == <<p, parts, orig>>
Init == p \in AllPaths(Fin) /\ parts = <<>> /\ orig = p
Cut == parts = <<>> /\ \E B \in Breaks : parts' = Partition(p, SetToSortedSeq(B)) /\ UNCHANGED <<p, orig>>
\* regenerate one piece keeping its end states (first: right end only, last: left end only)
Regenerate ==
  /\ parts # <<>> /\ Len(parts) > 1 /\ Paste(parts) = orig
  /\ \E i \in DOMAIN parts : \E q \in PathTable[parts[i].fin] :
       /\ i > 1 => q.x[1] = parts[i].x[1]
       /\ i < Len(parts) => EndState(q) = EndState(parts[i])
       /\ parts' = [parts EXCEPT ![i] = q] /\ UNCHANGED <<p, orig>>
Join == parts # <<>> /\ p' = Paste(parts) /\ orig' = p' /\ parts' = <<>>
Next == Cut \/ Regenerate \/ Join
Spec == Init /\ [][Next]_vars

TypeOK == IsPath(p) /\ Minimal(p) /\ p.fin = Fin /\ \A i \in DOMAIN parts : IsPath(parts[i])
\* cutting loses nothing: pasting gives the path back, and every piece agrees with it everywhere
RoundTrip ==
  parts # <<>> /\ Paste(parts) = orig =>
    LET off[i \in 1..Len(parts)] == IF i = 1 THEN 0 ELSE off[i - 1] + parts[i - 1].fin
    IN \A i \in DOMAIN parts : \A u \in 0..(parts[i].fin - 1) : StateAt(parts[i], u) = StateAt(p, off[i] + u)
HorizonKept == parts # <<>> => Glue(parts, 0).fin = Fin
\* after regeneration of a piece everything outside it is as before
Local ==
  parts # <<>> => LET q == Paste(parts) IN
    /\ IsPath(q) /\ Minimal(q) /\ q.fin = Fin
    /\ \A u \in 0..(Fin - 1) : \/ StateAt(q, u) = StateAt(p, u)
                               \/ \E i \in DOMAIN parts :
                                    LET a == Glue(SubSeq(parts, 1, i - 1), 0).fin
                                    IN u >= a /\ u < a + parts[i].fin /\ parts[i] # Piece(p, a, a + parts[i].fin)
=============================================================================
