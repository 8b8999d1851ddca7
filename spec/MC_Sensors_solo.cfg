SPECIFICATION Spec
CONSTANTS
  Edges = TRUE
  Sensing = {0, 1, 2}
  Solo = TRUE
INVARIANTS Usable Explained
PROPERTIES Alone Ready
CHECK_DEADLOCK FALSE
