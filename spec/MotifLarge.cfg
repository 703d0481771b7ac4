SPECIFICATION Spec
INVARIANTS Laws Export
CHECK_DEADLOCK FALSE
CONSTANTS
  V = {1, 2, 3}
  Ts = {0, 1, 2}
  MaxEdges = 4
  Deltas = {0, 1, 2}
  Lengths = {1, 2, 3}
