CONSTANTS
  N = 3
  M = 1
  STEPS = 40
SPECIFICATION Spec
INVARIANTS TraceKept StaysSymmetric RotationsKept Similar JudgeGood JudgeBad JudgeOrder JudgeUnit Arrives
CHECK_DEADLOCK FALSE
