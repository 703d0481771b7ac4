SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
  Kind = "interval"
  Dir = FALSE
  Nodes = {1, 2}
  Times = {0, 1}
  MaxEdges = 2
  Attrs <- SomeAttrs
  LoneNodes = TRUE
INVARIANTS Laws Export
PROPERTIES AddsOne RemovesOnlyHits RemovesNodeOnly
