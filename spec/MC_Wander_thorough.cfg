SPECIFICATION Spec
CONSTANT Count = 3
INVARIANTS Unit Judged Noticed Axis
CHECK_DEADLOCK FALSE
