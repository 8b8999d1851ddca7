SPECIFICATION Spec
CONSTANTS
  Steps = 64
  Orders = {1, 2, 3, 6}
INVARIANTS Unit OnCourse Undone Rest
CHECK_DEADLOCK FALSE
