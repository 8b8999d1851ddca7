SPECIFICATION Spec
CONSTANTS
  Edges = TRUE
  Parts = {"ar", "aq", "dv"}
INVARIANTS Consistent Retry
PROPERTIES Once Alone
CHECK_DEADLOCK FALSE
