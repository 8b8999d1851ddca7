SPECIFICATION Spec
CONSTANT Count = 2
INVARIANTS Unit Judged Noticed Axis
CHECK_DEADLOCK FALSE
