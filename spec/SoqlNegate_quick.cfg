SPECIFICATION Spec
CONSTANTS
  MaxCmp = 3
  MaxNot = 2
  Reach = "operand"
INVARIANTS Same Gone InPlace
PROPERTY Ends
CHECK_DEADLOCK FALSE
