SPECIFICATION Spec
CONSTANTS
  MaxCmp = 3
  Track = FALSE
INVARIANTS StackSound OperandsThere Formulas OwnOnly Exact
CHECK_DEADLOCK FALSE
