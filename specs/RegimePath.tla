----------------------------- MODULE RegimePath -----------------------------
(***************************************************************************)
(* Right-continuous piecewise constant paths of a finite-state jump        *)
(* process, in integer ticks.  A path records its jump times (the first is *)
(* 0), the state held from each of them, and its horizon.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

IsPath(p) ==
  /\ Len(p.t) = Len(p.x) /\ Len(p.t) >= 1 /\ p.t[1] = 0
  /\ \A i \in 1..(Len(p.t) - 1) : p.t[i] < p.t[i + 1]
  /\ p.t[Len(p.t)] <= p.fin

\* no jump that does not change the state
Minimal(p) == \A i \in 1..(Len(p.x) - 1) : p.x[i] # p.x[i + 1]

\* index of the jump in force at time u: the last one at or before u
IndexAt(p, u) == Cardinality({i \in DOMAIN p.t : p.t[i] <= u})
StateAt(p, u) == p.x[IndexAt(p, u)]
\* the state just before u > 0
LeftState(p, u) == p.x[Cardinality({i \in DOMAIN p.t : p.t[i] < u})]

Hold(p, i) == (IF i = Len(p.t) THEN p.fin ELSE p.t[i + 1]) - p.t[i]
TimeIn(p, s) ==
  LET Go[i \in 0..Len(p.t)] == IF i = 0 THEN 0 ELSE Go[i - 1] + (IF p.x[i] = s THEN Hold(p, i) ELSE 0)
  IN Go[Len(p.t)]
Moves(p, a, b) == Cardinality({i \in 1..(Len(p.x) - 1) : p.x[i] = a /\ p.x[i + 1] = b})

\* the part of p on [a, b), moved to start at 0: the state at a, then the jumps strictly inside (a, b)
Piece(p, a, b) ==
  LET inside == SelectSeq([i \in 1..Len(p.t) |-> <<p.t[i], p.x[i]>>], LAMBDA j : a < j[1] /\ j[1] < b)
  IN  [t |-> <<0>> \o [i \in 1..Len(inside) |-> inside[i][1] - a],
       x |-> <<StateAt(p, a)>> \o [i \in 1..Len(inside) |-> inside[i][2]],
       fin |-> b - a]

\* cut at the strictly increasing interior times brk
Partition(p, brk) ==
  LET edge == <<0>> \o brk \o <<p.fin>>
  IN [i \in 1..(Len(brk) + 1) |-> Piece(p, edge[i], edge[i + 1])]

RECURSIVE Glue(_, _)
\* put the pieces one after another, keeping every recorded time
Glue(parts, at) ==
  IF parts = <<>> THEN [t |-> <<>>, x |-> <<>>, fin |-> at]
  ELSE LET h == Head(parts) r == Glue(Tail(parts), at + h.fin)
       IN [t |-> [i \in 1..Len(h.t) |-> h.t[i] + at] \o r.t, x |-> h.x \o r.x, fin |-> r.fin]

\* forget recorded times at which nothing changes
Prune(p) ==
  LET keep == SelectSeq([i \in 1..Len(p.t) |-> i], LAMBDA i : i = 1 \/ p.x[i] # p.x[i - 1])
  IN [t |-> [i \in 1..Len(keep) |-> p.t[keep[i]]], x |-> [i \in 1..Len(keep) |-> p.x[keep[i]]], fin |-> p.fin]

Paste(parts) == Prune(Glue(SelectSeq(parts, LAMBDA q : q.fin # 0), 0))

EndState(p) == p.x[Len(p.x)]

RECURSIVE SetToSortedSeq(_)
SetToSortedSeq(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE a \in S : \A b \in S : a <= b
                     IN <<m>> \o SetToSortedSeq(S \ {m})

SamePath(p, q) == p.t = q.t /\ p.x = q.x /\ p.fin = q.fin
=============================================================================
