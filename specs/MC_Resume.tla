------------------------------ MODULE MC_Resume ------------------------------
(* All patterns of stops: with all parts handed over they make no difference; without any one of them some pattern does. *)
EXTENDS Resume, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt
CONSTANTS MaxSweeps
VARIABLES s, ref, k, stops, open
vars == <<s, ref, k, stops, open>>
Init == s = Fresh /\ ref = Fresh /\ k = 0 /\ stops = {} /\ open = TRUE
Go == open /\ k < MaxSweeps /\ s' = Sweep(s) /\ ref' = Sweep(ref) /\ k' = k + 1 /\ UNCHANGED <<stops, open>>
Stop == open /\ k > 0 /\ open' = FALSE /\ stops' = stops \cup {k} /\ UNCHANGED <<s, ref, k>>
Again == ~open /\ open' = TRUE /\ s' = Take(Parts, s) /\ UNCHANGED <<ref, k, stops>>
Next == Go \/ Stop \/ Again
Spec == Init /\ [][Next]_vars
Same == s = ref
AsFunction == open => s = Stopped(Fresh, 0, k, stops, Parts)
ASSUME \A p \in Parts : \E n \in 1..MaxSweeps : \E st \in SUBSET (1..n) :
  Stopped(Fresh, 0, n, st, Parts \ {p})["hidden"] # Straight(Fresh, n)["hidden"]
\* every pattern is replayed on the real sampler
Cases == {[n |-> n, stops |-> SetToSortSeq(st, LAMBDA a, b : a < b)] : n \in {MaxSweeps}, st \in SUBSET (1..(MaxSweeps - 1))}
ASSUME ndJsonSerialize(IOEnv.WORK \o "/cases_stops.ndjson", SetToSeq(Cases))
==============================================================================
