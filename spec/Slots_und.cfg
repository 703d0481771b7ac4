SPECIFICATION Spec
INVARIANTS Laws Export
CHECK_DEADLOCK FALSE
CONSTANTS
  Dir = FALSE
  Pairs <- Few
  MaxSlots = 3
  Begin <- Signed
  Period = 2
