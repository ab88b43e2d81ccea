------------------------------- MODULE Reveal -------------------------------
(***************************************************************************)
(* A latent path that is revealed on request.  What is known of it:        *)
(*   t, x    revealed times (first and last are the ends) and values       *)
(*   tight   its extreme on one side, attained at a revealed time          *)
(*   loose   a bound on the other side that is never reached               *)
(*   hit     a level between them; marks[i] says that the path reaches it  *)
(*           in the i-th interval, no mark that it stays away from it      *)
(*           (marks = <<>>, has = FALSE: crossings are not tracked)        *)
(* Values and times are positions in an order.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Up(s) == s.tight < s.loose
\* position of a value from the tight side to the loose side
Dir(s, v) == IF Up(s) THEN v ELSE -v
Inside(s, v) == Dir(s, s.tight) <= Dir(s, v) /\ Dir(s, v) < Dir(s, s.loose)
Reaches(s, v) == Dir(s, v) >= Dir(s, s.hit)

Sorted(t) == \A i \in 1..(Len(t) - 1) : t[i] < t[i + 1]
IndexOf(t, u) == CHOOSE i \in DOMAIN t : t[i] = u
Known(s) == {s.t[i] : i \in DOMAIN s.t}
ValueAt(s, u) == s.x[IndexOf(s.t, u)]

WellFormed(s) ==
  /\ Len(s.t) = Len(s.x) /\ Len(s.t) >= 2 /\ Sorted(s.t)
  /\ \A i \in DOMAIN s.x : Inside(s, s.x[i])
  /\ s.has => Len(s.marks) = Len(s.t) - 1
ExtremeAttained(s) == \E i \in DOMAIN s.x : s.x[i] = s.tight
\* a mark is certain next to a point beyond the level, so that an interval without mark lies below it
MarksSound(s) == s.has /\ Len(s.marks) = Len(s.t) - 1 =>
  \A i \in DOMAIN s.marks : Reaches(s, s.x[i]) \/ Reaches(s, s.x[i + 1]) => s.marks[i]

\* intervals of the new knowledge that lie in the i-th interval of the old one
Within(s, n, i) == {k \in 1..(Len(n.t) - 1) : s.t[i] <= n.t[k] /\ n.t[k + 1] <= s.t[i + 1]}
MarksRefined(s, n) ==
  IF ~s.has THEN ~n.has
  ELSE n.has /\ Len(n.marks) = Len(n.t) - 1 /\ Len(s.marks) = Len(s.t) - 1 /\
       \A i \in DOMAIN s.marks : s.marks[i] <=> \E k \in Within(s, n, i) : n.marks[k]
NothingLost(s, n) == Known(s) \subseteq Known(n) /\ \A u \in Known(s) : ValueAt(n, u) = ValueAt(s, u)
ExactlyAsked(s, n, req) == Known(n) = Known(s) \cup {req[i] : i \in DOMAIN req}
SameFrame(s, n) == n.tight = s.tight /\ n.loose = s.loose /\ n.hit = s.hit /\ n.t[1] = s.t[1] /\ n.t[Len(n.t)] = s.t[Len(s.t)]

Allowed(s, n, req) == WellFormed(n) /\ ExtremeAttained(n) /\ MarksSound(n) /\ MarksRefined(s, n) /\ NothingLost(s, n)
                      /\ ExactlyAsked(s, n, req) /\ SameFrame(s, n)
=============================================================================
