CONSTANTS N = 2
          R = 2
SPECIFICATION Spec
INVARIANTS PivotsAreMinors SignIsParity DeterminantAgrees FactorsMultiplyBack PivotsAreClear
INVARIANTS TransposeLaw SwapLaw AdjugateLaw OrthogonalLaw Sylvester
INVARIANTS JudgeDet JudgeInv JudgePred JudgeQr JudgeLup
CHECK_DEADLOCK FALSE
