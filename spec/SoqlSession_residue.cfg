SPECIFICATION Spec
CONSTANTS
  Texts = {1, 2, 3}
  Depth = 4
  Variant = "residue"
INVARIANT Isolated
PROPERTY StepsAllowed
CHECK_DEADLOCK FALSE
