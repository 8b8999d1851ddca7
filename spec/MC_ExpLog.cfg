SPECIFICATION Spec
INVARIANTS UnitNorm HalfAngle MatrixIsRodrigues LogInverts ExpJudged ExpLaw
CHECK_DEADLOCK FALSE
