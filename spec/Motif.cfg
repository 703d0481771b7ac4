SPECIFICATION Spec
INVARIANTS Laws Export
CHECK_DEADLOCK FALSE
CONSTANTS
  V = {1, 2, 3}
  Ts = {0, 1, 2}
  MaxEdges = 3
  Deltas = {1}
  Lengths = {1, 2, 3}
