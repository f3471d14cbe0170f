SPECIFICATION Spec
CONSTANTS
  MaxCmp = 3
  Track = TRUE
INVARIANTS StackSound OperandsThere Formulas OwnOnly Complete Exact
PROPERTY Ends
CHECK_DEADLOCK FALSE
