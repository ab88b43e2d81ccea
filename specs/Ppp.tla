-------------------------------- MODULE Ppp --------------------------------
(***************************************************************************)
(* Poisson point sets revealed in batches, as a state machine.             *)
(* Coordinates are positions in an order (ticks, or ranks of doubles).     *)
(*   s.size   requested batch size      s.edges  upper edge per coordinate *)
(*   s.zero   lower edge per coordinate s.front  first coordinate reached  *)
(*   s.short  a batch smaller than requested was delivered                 *)
(***************************************************************************)
EXTENDS Integers, Sequences

Opened(size, zero, edges) == [size |-> size, zero |-> zero, edges |-> edges, front |-> zero[1], short |-> FALSE, n |-> 0]

Inside(s, pt) == Len(pt) = Len(s.edges) /\ \A k \in DOMAIN pt : s.zero[k] <= pt[k] /\ pt[k] <= s.edges[k]
Ordered(s, pts) == /\ (pts # <<>> => s.front < pts[1][1] \/ (s.n = 0 /\ s.front <= pts[1][1]))
                   /\ \A i \in 1..(Len(pts) - 1) : pts[i][1] < pts[i + 1][1]
CanDeliver(s, pts) == /\ ~s.short /\ 1 <= Len(pts) /\ Len(pts) <= s.size
                      /\ \A i \in DOMAIN pts : Inside(s, pts[i])
                      /\ Ordered(s, pts)
Deliver(s, pts) == [s EXCEPT !.front = IF pts = <<>> THEN s.front ELSE pts[Len(pts)][1],
                             !.short = Len(pts) < s.size, !.n = s.n + Len(pts)]
=============================================================================
