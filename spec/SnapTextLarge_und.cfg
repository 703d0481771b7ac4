SPECIFICATION Spec
INVARIANTS Laws Export
CHECK_DEADLOCK FALSE
CONSTANTS
  Dir = FALSE
  TimeSet = {0, 1, 2}
  Entries = {0, 1}
  MaxSize = 2
  MaxRows = 2
  NoiseSet = {"none"}
