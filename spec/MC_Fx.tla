-------------------------------- MODULE MC_Fx ---------------------------------
(* Sanity of the fixed-point kernel, decided by TLC on grids. *)
EXTENDS Integers, Sequences, Fx
VARIABLE x

Grid == {k * 977 : k \in -420..420}
Init == x \in Grid
Next == UNCHANGED x

Tol == 8
Pythagoras == Near(Sq(Sin(x)) + Sq(Cos(x)), ONE, 12)
SinOdd     == Near(Sin(-x), -Sin(x), Tol)
SinShift   == Near(Sin(x + PI), -Sin(x), 10)
DoubleAng  == Near(Sin(2 * x), 2 * Mul(Sin(x), Cos(x)), 24)
SqrtSq     == x >= 0 => Near(Sq(Sqrt(x)), x, 2 + Sqrt(x) \div 16384)
DivMul     == (Abs(x) > 2000) => Near(Mul(Div(ONE, x), x), ONE, 2 + Abs(x) \div 16384)
AcosCos    == (x >= 3000 /\ x <= PI - 3000) => Near(Acos(Cos(x)), x, 250)
ExpInv     == (Abs(x) <= 2 * ONE) => Near(Mul(Exp(x), Exp(-x)), ONE, 32)
\* the exponential grows by the factor e over a unit
ExpStep    == (Abs(x) <= 3 * ONE) => Near(Exp(x + ONE), Mul(178145, Exp(x)), 4 + Exp(x) \div 8192)
MulExact   == \A y \in {-70001, -3, 0, 5, 32768, 65536, 99999} :
                 Abs(x * 1) <= 20000 /\ Abs(y) <= 100000 =>
                   Mul(x, y) = (x * y) \div 65536
MulComm    == \A y \in {-70001, -3, 0, 5, 32768, 65536, 99999} : Near(Mul(x, y), Mul(y, x), 1)
UnitOk     == \A y \in {-3000, 17, 2500} : Near(NormFx(UnitOfInts(<<x \div 20, y, 40>>)), ONE, 8)
===============================================================================
