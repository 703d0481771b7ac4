SPECIFICATION Spec
INVARIANTS Laws Export
CHECK_DEADLOCK FALSE
CONSTANTS
  Kind = "interval"
  Dir = TRUE
  TimeSet = {0, 1, 2, 3, 4}
  Pairs <- OneWay
  ValueSet = {0}
  NoiseSet = {"none"}
  MaxRows = 3
  Shuffles = FALSE
  Durations <- NotGiven
  Graces <- SomeGraces
