SPECIFICATION Spec
INVARIANTS WellFormed Ring Conjugates Inverses Matrices Tests Ordered
CHECK_DEADLOCK FALSE
