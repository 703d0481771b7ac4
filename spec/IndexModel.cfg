SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
  Times = {0, 1, 2, 3, 4, 5, 6}
  Short = 0
  MaxHeld = 7
  MaxOps = 8
INVARIANTS Holds Sorted LatestEnds SearchExact Export
