SPECIFICATION Spec
CONSTANTS
  Steps = 24
  Starts = "half"
  Fields = "few"
  Gains = "one"
INVARIANTS Unit Limit
PROPERTIES Approach
CHECK_DEADLOCK FALSE
