---------------------------------- MODULE Fx ----------------------------------
(***************************************************************************)
(* Fixed-point real arithmetic on TLC's 32-bit integers.                   *)
(* A real x is represented by the integer nearest to x * ONE, ONE = 2^16.  *)
(* Every operator states the range in which no intermediate overflows; TLC *)
(* reports an overflow as an error, so a range mistake cannot pass         *)
(* silently.                                                               *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE TLC   \* TLCEval: evaluate sequences eagerly

ONE  == 65536
HALF == 32768
PI   == 205887          \* pi   * 2^16
TWOPI == 411775         \* 2 pi * 2^16
HALFPI == 102944

Abs(x) == IF x < 0 THEN -x ELSE x
MaxI(x, y) == IF x > y THEN x ELSE y
MinI(x, y) == IF x < y THEN x ELSE y
Clip(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Near(x, y, tol) == Abs(x - y) <= tol

\* floor(a*b / 2^16), exact as long as |a*b| <= 2^38.
Mul(a, b) ==
  LET ah == a \div 256
      al == a % 256
  IN  (ah * b + ((al * b) \div 256)) \div 256

Sq(a) == Mul(a, a)

\* Like Mul for any |a|, |b| < 2^30; products of 2^38 and more saturate at 2^28.
SatMul(a, b) ==
  LET x == MaxI(Abs(a), Abs(b))
      y == MinI(Abs(a), Abs(b))
      s == IF (a < 0) = (b < 0) THEN 1 ELSE -1
  IN  IF y <= 256 \/ (x \div 256) <= (1073741824 \div y) THEN s * Mul(x, y) ELSE s * 268435456

\* Product of a fixed-point number with a plain integer.
Scale(a, n) == a * n

\* Quotient of integers rounded towards minus infinity for any sign of d.
QuoI(n, d) == IF d < 0 THEN (-n) \div (-d) ELSE n \div d

\* a / b for |a| < 2^30, computed by long division in steps of 2^4 so that
\* nothing overflows while |b| < 2^26.
RECURSIVE DivSteps(_, _, _, _)
DivSteps(q, r, b, k) ==
  IF k = 0 THEN q
  ELSE LET r16 == r * 16 IN DivSteps(q * 16 + (r16 \div b), r16 % b, b, k - 1)

DivPos(a, b) == DivSteps(a \div b, a % b, b, 4)

Div(a, b) ==
  LET q == DivPos(Abs(a), Abs(b)) IN IF (a < 0) # (b < 0) THEN -q ELSE q

\* Integer square root of a plain integer (floor), by Newton iteration.
RECURSIVE ISqrtIter(_, _)
ISqrtIter(n, x) ==
  LET y == (x + n \div x) \div 2 IN IF y >= x THEN x ELSE ISqrtIter(n, y)
ISqrt(n) == IF n <= 0 THEN 0 ELSE IF n < 4 THEN 1 ELSE ISqrtIter(n, 46340)

\* sqrt(x) in fixed point for 0 <= x < 2^30: refine ISqrt(x)*256 once with
\* y <- (y + x/y)/2.
Sqrt(x) ==
  IF x <= 0 THEN 0
  ELSE LET y0 == MaxI(ISqrt(x) * 256, 1)
           y1 == (y0 + Div(x, y0)) \div 2
       IN  MaxI(y1, 1)

\* Euclidean length of a sequence of plain integers with sum of squares < 2^31,
\* returned in fixed point when the length is below 2^14 (Len16), used to
\* normalise integer directions.
RECURSIVE SumSeq(_, _)
SumSeq(s, k) == IF k = 0 THEN 0 ELSE s[k] + SumSeq(s, k - 1)
Sum(s) == SumSeq(s, Len(s))

\* ---- trigonometry --------------------------------------------------------
\* Reduce an angle to [-pi, pi]; TWOPI exceeds the full turn by 0.167 units, which many turns add up.
Wrap(a) ==
  LET turns == (a + PI) \div TWOPI IN ((a + PI) % TWOPI) - PI + (turns * 167) \div 1000

\* Taylor series of sine on [-pi/2, pi/2].
SinCore(x) ==
  LET x2 == Sq(x)
      t9 == ONE - (x2 \div 110)
      t7 == ONE - (Mul(x2, t9) \div 72)
      t5 == ONE - (Mul(x2, t7) \div 42)
      t3 == ONE - (Mul(x2, t5) \div 20)
      t1 == ONE - (Mul(x2, t3) \div 6)
  IN  Mul(x, t1)

Sin(a) ==
  LET w == Wrap(a)
      x == IF w > HALFPI THEN PI - w ELSE IF w < -HALFPI THEN -PI - w ELSE w
  IN  SinCore(x)

Cos(a) == Sin(a + HALFPI)

\* e^x for -8 <= x <= 4, as a power of e times the exponential series on [-1/2, 1/2]; within 2 + 2 e^x units.
ExpCore(x) ==
  LET t6 == ONE + (x \div 7)
      t5 == ONE + (Mul(x, t6) \div 6)
      t4 == ONE + (Mul(x, t5) \div 5)
      t3 == ONE + (Mul(x, t4) \div 4)
      t2 == ONE + (Mul(x, t3) \div 3)
      t1 == ONE + (Mul(x, t2) \div 2)
  IN  ONE + Mul(x, t1)
EPowers == <<22, 60, 162, 442, 1200, 3263, 8869, 24109, 65536, 178145, 484249, 1316326, 3578144>>     \* e^-8 .. e^4
Exp(x) ==
  LET n == (x + HALF) \div ONE IN Mul(EPowers[n + 9], ExpCore(x - n * ONE))

\* arccos on [-1, 1] by bisection on the decreasing cosine.
RECURSIVE AcosBis(_, _, _, _)
AcosBis(c, lo, hi, k) ==
  IF k = 0 THEN (lo + hi) \div 2
  ELSE LET mid == (lo + hi) \div 2
       IN  IF Cos(mid) > c THEN AcosBis(c, mid, hi, k - 1)
                           ELSE AcosBis(c, lo, mid, k - 1)
Acos(c) == IF c >= ONE THEN 0 ELSE IF c <= -ONE THEN PI ELSE AcosBis(c, 0, PI, 18)

\* Angle in [0, pi] whose cosine is c and sine s, by the better conditioned of the two.
AngleOf(c, s) == IF Abs(c) < 46341 THEN Acos(c)
                 ELSE IF c > 0 THEN HALFPI - Acos(Clip(s, 0, ONE)) ELSE HALFPI + Acos(Clip(s, 0, ONE))

\* sin(n)/n for n >= 0.
Sinc(n) == IF n < 16384 THEN ONE - (Sq(n) \div 6) + (Sq(Sq(n)) \div 120) ELSE Div(Sin(n), n)

\* ---- small vectors (sequences of fixed-point numbers) ----------------------
DotFx(u, v) == Sum([k \in 1..Len(u) |-> Mul(u[k], v[k])])
NormFx(u) == Sqrt(DotFx(u, u))
AddV(u, v) == TLCEval([k \in 1..Len(u) |-> u[k] + v[k]])
SubV(u, v) == TLCEval([k \in 1..Len(u) |-> u[k] - v[k]])
MulV(u, s) == TLCEval([k \in 1..Len(u) |-> Mul(u[k], s)])
NegV(u) == TLCEval([k \in 1..Len(u) |-> -u[k]])
NormalizeFx(u) == LET n == NormFx(u) IN TLCEval([k \in 1..Len(u) |-> Div(u[k], n)])
NearV(u, v, tol) == \A k \in 1..Len(u) : Near(u[k], v[k], tol)

\* Unit vector of a plain integer direction, |component| < 2^15.
UnitOfInts(d) ==
  LET m == MaxI(1, Abs(d[1]) + SumSeq([k \in 1..Len(d) |-> IF k = 1 THEN 0 ELSE Abs(d[k])], Len(d)))
      \* scale to magnitudes of about one before taking the root
      s == TLCEval([k \in 1..Len(d) |-> Div(d[k], m)])
  IN  NormalizeFx(s)
===============================================================================
