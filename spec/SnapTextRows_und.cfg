SPECIFICATION Spec
INVARIANTS Laws Export
CHECK_DEADLOCK FALSE
CONSTANTS
  Dir = FALSE
  TimeSet = {0, 1, 2}
  Entries = {0, 2}
  MaxSize = 1
  MaxRows = 3
  NoiseSet = {"none", "blank"}
