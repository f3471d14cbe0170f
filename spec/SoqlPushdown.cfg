SPECIFICATION Spec
CONSTANTS
  MaxCmp = 4
  Track = TRUE
INVARIANTS StackSound OperandsThere Formulas OwnOnly Complete Exact
CHECK_DEADLOCK FALSE
