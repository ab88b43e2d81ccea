SPECIFICATION Spec
CONSTANTS
  BMax = 3
  Items = 2
INVARIANTS WithinBudget OnlyAccepted AsPredicted BudgetIrrelevant Larger ItAsPredicted NoAttemptAfterSuccess
CHECK_DEADLOCK FALSE
