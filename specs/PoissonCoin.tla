----------------------------- MODULE PoissonCoin -----------------------------
(***************************************************************************)
(* Decision of a Poisson coin.  Points (mark, time) arrive in batches in   *)
(* order of their marks; a point lies under the rate when its mark is below*)
(* the gap of the path at its time.  The coin fails with the first batch   *)
(* that holds such a point and succeeds once all points are seen.          *)
(*   s.seen   times looked at      s.over  decided     s.ok  the decision  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Fresh == [seen |-> {}, over |-> FALSE, ok |-> FALSE]
Under(pt, gap) == pt[1] < gap[pt[2]]
Look(s, batch, gap) ==
  LET hit == \E i \in DOMAIN batch : Under(batch[i], gap)
  IN [seen |-> s.seen \cup {batch[i][2] : i \in DOMAIN batch}, over |-> hit, ok |-> FALSE]
Finish(s) == [s EXCEPT !.over = TRUE, !.ok = TRUE]

\* With a rate that is either at its lower level or at its upper level everywhere, the decision can be read off the
\* points looked at: the coin succeeds iff it has looked at no point where the rate is at its upper level.
Decided(ok, high) == ok <=> ~(\E i \in DOMAIN high : high[i])
=============================================================================
