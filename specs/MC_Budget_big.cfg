SPECIFICATION Spec
CONSTANTS
  BMax = 4
  Items = 3
INVARIANTS WithinBudget OnlyAccepted AsPredicted BudgetIrrelevant Larger ItAsPredicted NoAttemptAfterSuccess
CHECK_DEADLOCK FALSE
