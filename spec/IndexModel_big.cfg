SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
  Times = {0, 1, 2, 3, 4, 5}
  Short = 1
  MaxHeld = 6
  MaxOps = 7
INVARIANTS Holds Sorted LatestEnds SearchExact Export
