------------------------------ MODULE MC_Budget ------------------------------
(* Two requests with different budgets fed with the same proposals, and an iterator. *)
EXTENDS Budget, TLC
CONSTANTS BMax, Items
VARIABLES a, b, seen, it, vals, needs, cnt
vars == <<a, b, seen, it, vals, needs, cnt>>
Init == /\ a \in {Fresh(m) : m \in 0..BMax} /\ b \in {Fresh(m) : m \in 0..BMax}
        /\ it \in {Fresh(m) : m \in 0..BMax} /\ seen = <<>> /\ vals = 0 /\ needs = <<>> /\ cnt = 0
Feed(s, ok) == IF CanAttempt(s) THEN Attempt(s, ok) ELSE s
Propose == \E ok \in BOOLEAN :
   /\ CanAttempt(a) \/ CanAttempt(b)
   /\ a' = Feed(a, ok) /\ b' = Feed(b, ok) /\ seen' = Append(seen, ok)
   /\ UNCHANGED <<it, vals, needs, cnt>>
Finish(s) == IF CanReturn(s) THEN Return(s) ELSE IF CanRaise(s) THEN Raise(s) ELSE s
End == /\ ~CanAttempt(a) /\ ~CanAttempt(b) /\ a.out = "run"
       /\ a' = Finish(a) /\ b' = Finish(b) /\ UNCHANGED <<seen, it, vals, needs, cnt>>
ItTry == /\ seen = <<>> /\ CanAttempt(it) /\ \E ok \in BOOLEAN : it' = Attempt(it, ok)
         /\ cnt' = cnt + 1 /\ UNCHANGED <<a, b, seen, vals, needs>>
ItYield == /\ CanReturn(it) /\ vals < Items /\ vals' = vals + 1 /\ needs' = Append(needs, it.n) /\ it' = Fresh(it.max)
           /\ UNCHANGED <<a, b, seen, cnt>>
ItRaise == /\ CanRaise(it) /\ it' = Raise(it) /\ UNCHANGED <<a, b, seen, vals, needs, cnt>>
Next == Propose \/ End \/ ItTry \/ ItYield \/ ItRaise
Spec == Init /\ [][Next]_vars
First(s) == IF \E i \in DOMAIN s : s[i] THEN CHOOSE i \in DOMAIN s : s[i] /\ \A j \in 1..(i - 1) : ~s[j] ELSE 0
WithinBudget == a.n <= a.max /\ b.n <= b.max /\ it.n <= it.max
OnlyAccepted == \A s \in {a, b} : (s.out = "value" => s.ok) /\ (s.out = "error" => ~s.ok /\ s.n = s.max)
AsPredicted == a.out # "run" => \A s \in {a, b} :
    LET o == Outcome(s.max, First(seen)) IN s.out = o.out /\ s.n = o.tries
BudgetIrrelevant == (a.out = "value" /\ b.out = "value") => a.n = b.n
Larger == (a.out = "value" /\ b.out # "run" /\ b.max >= a.max) => b.out = "value"
ItAsPredicted == it.out = "error" => /\ vals = Yields(it.max, Append(needs, it.max + 1))
                                     /\ cnt = Tries(it.max, Append(needs, it.max + 1))
NoAttemptAfterSuccess == \A s \in {a, b, it} : s.ok => ~CanAttempt(s)
===============================================================================
