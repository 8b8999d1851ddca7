INIT Init
NEXT Next
INVARIANTS Pythagoras SinOdd SinShift DoubleAng SqrtSq DivMul AcosCos ExpInv ExpStep MulExact MulComm UnitOk
CHECK_DEADLOCK FALSE
