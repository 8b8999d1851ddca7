CONSTANT STOPS = 4
SPECIFICATION Spec
INVARIANTS OnUnit OnArc Ends Reversed Halved Judge JudgeStraight
CHECK_DEADLOCK FALSE
