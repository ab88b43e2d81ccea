------------------------------- MODULE Symmetry -------------------------------
(***************************************************************************)
(* Symmetries of paths on an integer grid.  A path is a sequence of times  *)
(* and a sequence of values; a layered path also has its extreme (tight),  *)
(* the edges it has crossed (hit) or not (loose), and one mark per         *)
(* interval.  Values are doubled so that mid-points are integers.          *)
(***************************************************************************)
EXTENDS Integers, Sequences
Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
Reverse(p, T) == [t |-> [i \in DOMAIN p.t |-> T - p.t[Len(p.t) + 1 - i]], x |-> Rev(p.x)]
Reflect(p, axis) == [t |-> p.t, x |-> [i \in DOMAIN p.x |-> 2 * axis - p.x[i]]]
Sorted(t) == \A i \in 1..(Len(t) - 1) : t[i] <= t[i + 1]
\* turn a layered path upside down around the middle of its ends, and backwards, so that the ends stay put
Flip(s) ==
  LET sum == s.x[1] + s.x[Len(s.x)]       \* twice the axis
      T == s.t[Len(s.t)]
  IN [t |-> [i \in DOMAIN s.t |-> T - s.t[Len(s.t) + 1 - i]], x |-> [i \in DOMAIN s.x |-> sum - s.x[Len(s.x) + 1 - i]],
      tight |-> sum - s.tight, loose |-> sum - s.loose, hit |-> sum - s.hit, hi |-> Rev(s.hi)]
\* bridge z on [0, 1] from 0 to 0, moved to the horizon T and the ends x0, x1; r = square root of the time scale; s in units of 1/U
PivotT(s, T, U) == [i \in DOMAIN s |-> s[i] * T]                                            \* in 1/U
PivotX(s, z, r, x0, x1, U) == [i \in DOMAIN s |-> U * (z[i] * r + x0) + s[i] * (x1 - x0)]    \* in 1/U
================================================================================
