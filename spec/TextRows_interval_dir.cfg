SPECIFICATION Spec
INVARIANTS Laws Export
CHECK_DEADLOCK FALSE
CONSTANTS
  Kind = "interval"
  Dir = TRUE
  TimeSet <- Signed
  Pairs <- BothWays
  ValueSet = {0, 1, 2}
  NoiseSet = {"none"}
  MaxRows = 2
  Shuffles = FALSE
  Durations <- Duration2
  Graces <- NotGiven
