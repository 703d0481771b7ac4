SPECIFICATION Spec
INVARIANTS Laws Export
CHECK_DEADLOCK FALSE
CONSTANTS
  Dir = TRUE
  TimeSet = {0, 1, 2}
  Entries = {0, 1}
  MaxSize = 2
  MaxRows = 1
  NoiseSet = {"none", "remark", "blank", "tail"}
