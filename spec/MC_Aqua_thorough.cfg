SPECIFICATION Spec
CONSTANTS
  Steps = 60
  Starts = "all"
  Fields = "many"
  Gains = "all"
INVARIANTS Unit Limit
PROPERTIES Approach
CHECK_DEADLOCK FALSE
