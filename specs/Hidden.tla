------------------------------- MODULE Hidden -------------------------------
(***************************************************************************)
(* The hidden state of a regime-switching diffusion given observations.    *)
(*                                                                         *)
(* obs = [t, v]: observation times and values.                             *)
(* h = [t, y, v, z]: anchor times, the regime in force from each anchor    *)
(* on, the value of the path at each anchor and one path seed (here a      *)
(* name) for every interval between neighbouring anchors.  Times and       *)
(* values may be any totally ordered set; only <, = are used.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Range(s) == {s[i] : i \in DOMAIN s}
Increasing(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
IndexOf(s, x) == CHOOSE i \in DOMAIN s : s[i] = x

\* ---- clauses of alignment, separately named for reporting
Shape(h) == Len(h.t) >= 2 /\ Len(h.y) = Len(h.t) /\ Len(h.v) = Len(h.t)
Spans(obs, h) == h.t[1] = obs.t[1] /\ h.t[Len(h.t)] = obs.t[Len(obs.t)]
Observed(obs, h) == \A k \in DOMAIN obs.t :
   \E i \in DOMAIN h.t : h.t[i] = obs.t[k] /\ h.v[i] = obs.v[k]
RegimesOk(obs, h) == \A i \in 2..Len(h.t) :
   (h.y[i] = h.y[i - 1]) <=> (h.t[i] \in Range(obs.t))
Seeded(h, nz) == nz = Len(h.t) - 1
Aligned(obs, h) == /\ Shape(h) /\ Spans(obs, h) /\ Increasing(h.t) /\ Observed(obs, h)
                   /\ RegimesOk(obs, h) /\ Seeded(h, Len(h.z))

\* ---- splitting at some of the anchor times and pasting
Cuts(h, cond) == LET S == {i \in 2..(Len(h.t) - 1) : h.t[i] \in cond}
                     n == Cardinality(S)
                     kth(k) == CHOOSE i \in S : Cardinality({j \in S : j < i}) = k - 1
                 IN <<1>> \o [k \in 1..n |-> kth(k)] \o <<Len(h.t)>>
Section(h, a, b) == [t |-> SubSeq(h.t, a, b), y |-> SubSeq(h.y, a, b), v |-> SubSeq(h.v, a, b), z |-> SubSeq(h.z, a, b - 1)]
Split(h, cond) == LET c == Cuts(h, cond) IN [k \in 1..(Len(c) - 1) |-> Section(h, c[k], c[k + 1])]
RECURSIVE Paste(_)
Paste(p) == IF Len(p) = 1 THEN p[1]
            ELSE LET q == Paste(SubSeq(p, 1, Len(p) - 1)) r == p[Len(p)] IN
                 [t |-> q.t \o Tail(r.t), y |-> q.y \o Tail(r.y), v |-> q.v \o Tail(r.v), z |-> q.z \o r.z]

\* ---- regime path: the anchors at which the regime changes
RECURSIVE Sel(_, _, _)
Sel(s, keep, i) == IF i > Len(s) THEN <<>> ELSE IF keep[i] THEN <<s[i]>> \o Sel(s, keep, i + 1) ELSE Sel(s, keep, i + 1)
Prune(h) == LET keep == [i \in DOMAIN h.t |-> i = 1 \/ h.y[i] # h.y[i - 1]]
            IN [t |-> Sel(h.t, keep, 1), y |-> Sel(h.y, keep, 1), fin |-> h.t[Len(h.t)]]
Minimal(p) == /\ Increasing(p.t) /\ \A i \in 2..Len(p.y) : p.y[i] # p.y[i - 1]
              /\ p.t[Len(p.t)] <= p.fin
At(p, t) == LET S == {i \in DOMAIN p.t : p.t[i] <= t} IN p.y[CHOOSE i \in S : \A j \in S : j <= i]

\* ---- anchors for a regime path: its jumps and the observation times
Merge(p, obs) == LET S == Range(p.t) \cup Range(obs.t) IN
                 [k \in 1..Cardinality(S) |-> CHOOSE x \in S : Cardinality({y \in S : y < x}) = k - 1]
\* value(t): the value drawn for the anchor at a jump time t, name: the name of the new seeds
Aug(p, obs, value, name) ==
  LET t == Merge(p, obs) IN
  [t |-> t, y |-> [k \in DOMAIN t |-> At(p, t[k])],
   v |-> [k \in DOMAIN t |-> IF t[k] \in Range(obs.t) THEN obs.v[IndexOf(obs.t, t[k])] ELSE value],
   z |-> [k \in 1..(Len(t) - 1) |-> name]]
=============================================================================
