SPECIFICATION Spec
INVARIANTS Closed Proper Homomorphism Inverse TwoToOne Conjugation Lengths
INVARIANTS JudgeDcm JudgeExtract JudgeEuler
CHECK_DEADLOCK FALSE
