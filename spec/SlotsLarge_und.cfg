SPECIFICATION Spec
INVARIANTS Laws Export
CHECK_DEADLOCK FALSE
CONSTANTS
  Dir = FALSE
  Pairs <- Few
  MaxSlots = 4
  Begin <- Signed
  Period = 2
