------------------------------ MODULE MC_Adapt ------------------------------
(***************************************************************************)
(* The adaptation schedule over every history of acceptance outcomes: the  *)
(* scale moves only at period ends, in the direction of the outcomes, by   *)
(* at most the diminishing step, so that adaptation dies out.              *)
(***************************************************************************)
EXTENDS Adapt, TLC, Sequences
CONSTANTS Air, MaxPeriods, Opt, Outcomes
VARIABLES k, win, prev, ls, n, moved
vars == <<k, win, prev, ls, n, moved>>
Init == k = 1 /\ win = <<>> /\ prev = Opt /\ ls = 0 /\ n = 0 /\ moved = 0
Observe(p) ==
  LET w == Append(win, p) IN
  /\ n' = n + 1
  /\ IF Len(w) = PeriodLen(k, Air)
     THEN \E m \in Moves("rw", k, 660000, Opt, prev, w) : ls' = ls + m /\ moved' = m /\ k' = k + 1 /\ win' = <<>> /\ prev' = w[Len(w)]
     ELSE UNCHANGED <<ls, k, prev>> /\ win' = w /\ moved' = 0
Next == k <= MaxPeriods /\ \E p \in Outcomes : Observe(p)
Spec == Init /\ [][Next]_vars
\* after n outcomes the number of finished periods is fixed, whatever the outcomes
RECURSIVE Ends(_)
Ends(j) == IF j = 0 THEN 0 ELSE Ends(j - 1) + PeriodLen(j, Air)
Timing == Ends(k - 1) <= n /\ n < Ends(k)
Bounded == Abs(moved) <= Rate(k - 1, 660000) + 2
Diminishing == \A j \in 1..10 : Rate(j + 1, 660000) < Rate(j, 660000)
Step == [][(ls' # ls) => (Len(win) + 1 = PeriodLen(k, Air))]_vars
Direction == [][(k' # k) => LET all == {win[i] : i \in DOMAIN win} \cup {prev} \cup {prev'} IN
                 /\ ((\A p \in all : p > Opt) => ls' > ls)
                 /\ ((\A p \in all : p < Opt) => ls' < ls)]_vars
\* running moments are the batch moments, whatever the order of two batches
ASSUME \A a, b, c \in {-2000000, 0, 1000000, 3000000} :
         LET m2 == NextMean(1, a, b) v2 == NextCov(1, 0, a, a, b, b)
             m3 == NextMean(2, m2, c) v3 == NextCov(2, v2, m2, m2, c, c)
             o == <<<<a>>, <<b>>, <<c>>>>
         IN Near(m3, BatchMean(o, 1), 3) /\ Near(v3, BatchCov(o, 1, 1), 20)
\* the log-derivative is that of the map
ASSUME \A x \in {100000, 400000, 900000} : \A h \in {<<FALSE, TRUE>>, <<TRUE, FALSE>>, <<TRUE, TRUE>>} :
         LET D == Real(x + 1000, h[1], 0, h[2], One) - Real(x - 1000, h[1], 0, h[2], One)
         IN Near(Ln(Div(Abs(D), 2000)), LogDeriv(x, h[1], 0, h[2], One), 3000)
=============================================================================
