SPECIFICATION Spec
INVARIANT Readable
CHECK_DEADLOCK FALSE
