SPECIFICATION Spec
CONSTANTS
  Procs = {p1, p2, p3}
  Rules = {1, 2}
  Texts = {1, 2, 3}
  Calls = 2
  Sync = "flag"
INVARIANTS NoRace Results
CHECK_DEADLOCK FALSE
