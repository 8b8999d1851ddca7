SPECIFICATION Spec
CONSTANT Registers = 3
INVARIANT Held
CHECK_DEADLOCK FALSE
