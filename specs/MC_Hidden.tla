------------------------------ MODULE MC_Hidden ------------------------------
(* Sweeps over the hidden state: propose a regime path that agrees with the  *)
(* current one at the conditioning times, augment it, split both, keep or    *)
(* replace every section, paste.                                             *)
EXTENDS Hidden, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt
CONSTANTS Fin, ObsT, NReg, MaxJumps
VARIABLES h, gen
Obs == LET s == SetToSortSeq(ObsT, <) IN TLCEval([t |-> s, v |-> [k \in DOMAIN s |-> 10 * (k % 2)]])
JumpT == TLCEval({x \in 1..(Fin - 1) : x \notin ObsT})
Inner == TLCEval(ObsT \ {0, Fin})
Paths == TLCEval({p \in UNION {{[t |-> <<0>> \o SetToSortSeq(J, <), y |-> y, fin |-> Fin] : y \in [1..(Cardinality(J) + 1) -> 0..(NReg - 1)]}
                       : J \in {J \in SUBSET JumpT : Cardinality(J) <= MaxJumps}} : Minimal(p)})
Init == gen = 0 /\ \E p \in Paths : h = Aug(p, Obs, 5, 0)
Sweep == \E cond \in SUBSET Inner, p \in Paths, name \in {1 - gen} :
  /\ \A t \in cond : At(p, t) = At(Prune(h), t)
  /\ LET new == Aug(p, Obs, 5 + name, name) a == Split(h, cond) b == Split(new, cond) IN
     \E acc \in [1..Len(a) -> BOOLEAN] : h' = Paste([k \in 1..Len(a) |-> IF acc[k] THEN b[k] ELSE a[k]])
  /\ gen' = 1 - gen
Next == Sweep
Spec == Init /\ [][Next]_<<h, gen>>

AlignedInv == Aligned(Obs, h)
PruneMin == LET p == Prune(h) IN Minimal(p) /\ p.fin = Fin /\ p.t[1] = 0
                                 /\ \A i \in DOMAIN h.t : At(p, h.t[i]) = h.y[i]
SplitPaste == \A cond \in SUBSET Inner :
  LET s == Split(h, cond) IN
  /\ Paste(s) = h /\ Len(s) = Cardinality(cond) + 1
  /\ \A k \in DOMAIN s : Aligned([t |-> SelectSeq(Obs.t, LAMBDA t : t >= s[k].t[1] /\ t <= s[k].t[Len(s[k].t)]),
                                  v |-> [i \in 1..Cardinality({t \in ObsT : t >= s[k].t[1] /\ t <= s[k].t[Len(s[k].t)]}) |->
                                          Obs.v[IndexOf(Obs.t, s[k].t[1]) + i - 1]]], s[k])
  /\ \A k \in 1..(Len(s) - 1) : s[k].t[Len(s[k].t)] = s[k + 1].t[1] /\ s[k].y[Len(s[k].y)] = s[k + 1].y[1]
                                /\ s[k].v[Len(s[k].v)] = s[k + 1].v[1]
PruneAug == \A p \in Paths : Prune(Aug(p, Obs, 5, 0)) = p

Cases == ndJsonSerialize(IOEnv.WORK \o "/cases_path.ndjson", SetToSeq({[obs |-> Obs, p |-> p] : p \in Paths}))
ASSUME PruneAug
ASSUME Cases
=============================================================================
