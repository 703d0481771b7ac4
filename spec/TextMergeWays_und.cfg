SPECIFICATION Spec
INVARIANTS Laws Export
CHECK_DEADLOCK FALSE
CONSTANTS
  Kind = "interval"
  Dir = FALSE
  TimeSet = {0, 1, 2}
  Pairs <- BothWays
  ValueSet = {0, 1}
  NoiseSet = {"none"}
  MaxRows = 2
  Shuffles = TRUE
  Durations <- NotGiven
  Graces <- SomeGraces
