SPECIFICATION Spec
INVARIANTS Laws Export
CHECK_DEADLOCK FALSE
CONSTANTS
  Kind = "impulse"
  Dir = FALSE
  TimeSet <- Signed
  Pairs <- Three
  ValueSet = {0, 1, 2}
  NoiseSet = {"none", "remark", "blank"}
  MaxRows = 2
  Shuffles = FALSE
  Durations <- NotGiven
  Graces <- NotGiven
