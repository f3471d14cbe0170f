SPECIFICATION Spec
CONSTANTS
  MaxCmp = 4
  MaxNot = 3
  Reach = "operand"
INVARIANTS Same Gone InPlace
PROPERTY Ends
CHECK_DEADLOCK FALSE
