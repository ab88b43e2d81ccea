---------------------------- MODULE MC_EmProtocol ----------------------------
(* The protocol with objectives from a small set; theorems about its schedule and its closed-form step. *)
EXTENDS EmProtocol, FiniteSets, TLC
CONSTANTS Thin, MaxObj, Tol, Rates, MaxCount, Grid
VARIABLES pc, n, done, kept, thi, used, z, base, obj, prev, it
vars == <<pc, n, done, kept, thi, used, z, base, obj, prev, it>>
NoObj == -100
Init == pc = "sweep" /\ n = 1 /\ done = 0 /\ kept = <<>> /\ thi = 0 /\ used = {} /\ z = 0 /\ base = 0 /\ obj = NoObj /\ prev = NoObj /\ it = 0
\* parameters are named by the iteration that made them, hidden states by the sweep
Sweep == /\ pc = "sweep" /\ done < n * Thin
         /\ done' = done + 1 /\ z' = z + 1 /\ used' = used \cup {thi}
         /\ kept' = IF (done + 1) % Thin = 0 THEN Append(kept, z + 1) ELSE kept
         /\ UNCHANGED <<pc, n, thi, base, obj, prev, it>>
Maximise == /\ pc = "sweep" /\ done = n * Thin
            /\ \E o \in 0..MaxObj : (obj = NoObj \/ o >= obj) /\ obj' = o
            /\ prev' = obj /\ thi' = it + 1 /\ it' = it + 1 /\ pc' = "yield"
            /\ UNCHANGED <<n, done, kept, used, z, base>>
Stops == prev # NoObj /\ Abs(obj - prev) < Tol
Yield == /\ pc = "yield"
         /\ IF Stops THEN pc' = "end" /\ UNCHANGED <<n, done, kept, used, base>>
            ELSE pc' = "sweep" /\ n' = n + 1 /\ done' = 0 /\ kept' = <<>> /\ used' = {} /\ base' = z
         /\ UNCHANGED <<thi, z, obj, prev, it>>
Next == Sweep \/ Maximise \/ Yield
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* every sweep of an iteration at the latest parameter; the schedule of kept states; the stopping rule
LatestParam == used \subseteq {IF pc = "sweep" THEN it ELSE it - 1}
KeptEvery == \A k \in DOMAIN kept : kept[k] = base + k * Thin
Full == pc = "yield" => Len(kept) = n /\ kept[n] = z
StopRule == pc = "end" => prev # NoObj /\ Abs(obj - prev) < Tol
Ends == <>(pc = "end")
\* the schedule grows at least by one for learning rates of at least one
ASSUME \A lr \in Rates : \A k \in 1..MaxCount : \A m \in NextCounts(k, lr) : m >= k + 1
ASSUME \A k \in 1..MaxCount : NextCounts(k, One) \cap {k + 1} # {} /\ NextCounts(k * k, 2 * One) \cap {(k + 1) * (k + 1)} # {}
\* the closed-form rate beats every other one
ASSUME \A a \in Grid : \A b \in Grid : \A x \in Grid :
  RateProfile(a * One, b * One, RateMode(a, b)) >= RateProfile(a * One, b * One, Div(x, 7)) - 20
=============================================================================
