SPECIFICATION Spec
INVARIANTS Laws Export
CHECK_DEADLOCK FALSE
CONSTANTS
  Dir = TRUE
  Pairs <- TwoWays
  MaxSlots = 3
  Begin <- Signed
  Period = 2
