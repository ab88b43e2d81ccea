SPECIFICATION Spec
INVARIANTS WithinBudget SuccessEnds NothingLost HeadsObject NeverStuck
CHECK_DEADLOCK FALSE
CONSTANTS MaxBudget = 8
