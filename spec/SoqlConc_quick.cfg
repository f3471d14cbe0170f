SPECIFICATION Spec
CONSTANTS
  Procs = {p1, p2, p3}
  Rules = {1, 2}
  Texts = {1, 2, 3}
  Calls = 1
  Sync = "once"
INVARIANTS NoRace Results
PROPERTY EveryCallReturns
CHECK_DEADLOCK FALSE
