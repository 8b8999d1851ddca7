SPECIFICATION Spec
INVARIANTS Judged Either
CHECK_DEADLOCK FALSE
