SPECIFICATION Spec
INVARIANTS Laws Export
CHECK_DEADLOCK FALSE
CONSTANTS
  Kind = "impulse"
  Dir = TRUE
  TimeSet = {0, 1}
  Pairs <- Three
  ValueSet = {0, 1}
  NoiseSet = {"none", "remark", "blank", "tail"}
  MaxRows = 1
  Shuffles = TRUE
  Durations <- NotGiven
  Graces <- NotGiven
