SPECIFICATION Spec
CONSTANTS
  MaxCmp = 3
  MaxNot = 2
  Reach = "last"
INVARIANTS Same Gone InPlace
CHECK_DEADLOCK FALSE
