SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
  Kind = "interval"
  Dir = TRUE
  Nodes = {1, 2}
  Times = {0, 1, 2, 3}
  MaxEdges = 2
  Attrs <- NoAttrs
  LoneNodes = TRUE
INVARIANTS Laws Export
PROPERTIES AddsOne RemovesOnlyHits RemovesNodeOnly
