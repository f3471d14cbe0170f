SPECIFICATION Spec
CONSTANTS
  MaxCmp = 3
  MaxNot = 2
  Reach = "all"
INVARIANTS Same Gone InPlace
CHECK_DEADLOCK FALSE
