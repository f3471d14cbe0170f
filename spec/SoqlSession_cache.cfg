SPECIFICATION Spec
CONSTANTS
  Texts = {1, 2, 3}
  Depth = 4
  Variant = "cache"
INVARIANT Isolated
PROPERTY StepsAllowed
CHECK_DEADLOCK FALSE
