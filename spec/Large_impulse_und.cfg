SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
  Kind = "impulse"
  Dir = FALSE
  Nodes = {1, 2, 3}
  Times = {0, 1, 2}
  MaxEdges = 3
  Attrs <- NoAttrs
  LoneNodes = TRUE
INVARIANTS Laws Export
PROPERTIES AddsOne RemovesOnlyHits RemovesNodeOnly
