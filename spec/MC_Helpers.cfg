SPECIFICATION Spec
CONSTANT Bound = 3
INVARIANTS Bounds Extremes Signs Closeness
CHECK_DEADLOCK FALSE
