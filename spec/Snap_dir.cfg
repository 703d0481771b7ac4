SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
  Dir = TRUE
  Times = {0,1,2,3}
  MaxSnaps = 2
  MaxOps = 3
INVARIANTS Laws Export
PROPERTIES UpdatesPointwise AddsOne
