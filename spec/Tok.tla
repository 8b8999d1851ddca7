---------------------------------- MODULE Tok ---------------------------------
(***************************************************************************)
(* Values observed in the implementation, as tokens.                       *)
(*   <<0, n>>        the number n/64, exactly                              *)
(*   <<1, bits, fx>> some other finite number near fx / 2^16               *)
(*   <<2, 0>>        NaN;  <<3, 0>> +infinity;  <<4, 0>> -infinity         *)
(* Expectations use the same exact tokens and, in addition,                *)
(*   <<5, 0>>        any finite number                                     *)
(*   <<6, 0>>        either truth value                                    *)
(*   <<7, fx, tol>>  a finite number within tol/2^16 of fx/2^16            *)
(*   <<8, 0>>        not representable: the call has to report NaN or Inf  *)
(*   <<9, 0>>        may or may not be representable                       *)
(*   <<10, fx, tol>> zero or a number within tol/2^16 of fx/2^16           *)
(*   <<13, m, e, tol>> a finite number within tol 2^(e-16) of m 2^(e-16)   *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE TLC
LOCAL INSTANCE Fx

ExMax == 16777216                 \* 2^24: exact tokens stay below this
FxMax == 1073741824               \* 2^30: clipped magnitude marker

Ex(n)   == <<0, n>>
Zero    == <<0, 0>>
OneT    == <<0, 64>>
AnyFin  == <<5, 0>>
AnyBool == <<6, 0>>
Bad     == <<8, 0>>
Maybe   == <<9, 0>>
TrueT   == <<0, 64>>
FalseT  == <<0, 0>>
Bool(b) == IF b THEN TrueT ELSE FalseT
IntT(n) == <<0, n * 64>>

IsEx(t) == t[1] = 0
IsFin(t) == t[1] \in {0, 1}

\* Fixed-point view of a finite token; +-2^30 means "at least this large".
FxOf(t) ==
  IF t[1] = 0
  THEN IF t[2] >= 1048576 THEN FxMax ELSE IF t[2] <= -1048576 THEN -FxMax ELSE t[2] * 1024
  ELSE IF t[1] = 1 THEN t[3] ELSE FxMax
\* Decided on the bit pattern where the fixed-point view is too coarse.
Negative(t) == t[2] < 0
AboveOne(t) == IF t[1] = 0 THEN t[2] > 64 ELSE t[2] > 1065353216
Known(t) == IsFin(t) /\ (IsEx(t) \/ Abs(FxOf(t)) < FxMax)
\* Small enough for products of fixed-point views.
Small(t) == IsFin(t) /\ Abs(FxOf(t)) <= 524288     \* |v| <= 8
Medium(t) == IsFin(t) /\ Abs(FxOf(t)) < 134217728  \* |v| < 2048

Approx(fx, tol) == <<7, fx, tol>>
\* Rounding allowance of one f32 operation on a result of this size.
Ulp(fx) == 2 + (Abs(fx) \div 2097152)

Fallback(S) == IF \A t \in S : Known(t) THEN AnyFin
               ELSE IF \A t \in S : IsFin(t) THEN Maybe ELSE Bad

\* ---- numbers of any size -------------------------------------------------------
\* A finite token as <<m, e>>, the number m 2^(e-16) with 2^16 <= |m| <= 2^17 within half a unit of m.
RECURSIVE Log2(_)
Log2(n) == IF n >= 256 THEN 8 + Log2(n \div 256) ELSE IF n < 2 THEN 0 ELSE 1 + Log2(n \div 2)
Nought == <<0, -150>>
\* Sign and magnitude of a float's bit pattern.
Magnitude(b) == IF b < 0 THEN (b + 2147483647) + 1 ELSE b
Sci(t) ==
  IF t[1] = 0
  THEN IF t[2] = 0 THEN Nought
       ELSE LET k == Log2(Abs(t[2]))
            IN  <<IF k <= 16 THEN t[2] * 2^(16 - k)
                  ELSE Sgn(t[2]) * ((Abs(t[2]) + 2^(k - 17)) \div 2^(k - 16)), k - 6>>
  ELSE LET a == Magnitude(t[2])
           e == a \div 8388608
       IN  IF e = 0     \* below 2^-126
           THEN LET k == Log2(a) IN <<(IF t[2] < 0 THEN -1 ELSE 1) * (IF k <= 16 THEN a * 2^(16 - k) ELSE a \div 2^(k - 16)), k - 149>>
           ELSE <<(IF t[2] < 0 THEN -1 ELSE 1) * ((8388672 + (a % 8388608)) \div 128), e - 127>>
\* m 2^d rounded towards zero.
AtExp(m, d) ==
  IF d >= 0 THEN m * 2^d ELSE IF d < -24 THEN 0 ELSE Sgn(m) * (Abs(m) \div 2^(-d))
MaxOf(s) == CHOOSE x \in {s[k] : k \in DOMAIN s} : \A k \in DOMAIN s : s[k] <= x
\* Several numbers at the exponent of the largest.
Aligned(a) ==
  LET x == TLCEval([k \in 1..Len(a) |-> Sci(a[k])])
      e == MaxOf([k \in 1..Len(a) |-> x[k][2]])
  IN  [e |-> e, m |-> TLCEval([k \in 1..Len(a) |-> AtExp(x[k][1], x[k][2] - e)])]
\* m 2^(e-16) within tol 2^(e-16), unless that leaves the range of the floats, for certain from 2^129 on.
Scaled(m, e, tol) ==
  IF e >= 118 THEN (IF Abs(m) > 4 * tol /\ Log2(Abs(m)) + e >= 146 THEN Bad ELSE Maybe) ELSE IF e <= -100 THEN AnyFin ELSE <<13, m, e, tol>>
\* Numbers below two in units of 2^-24.
In24(t) ==
  IF t[1] = 0 THEN t[2] * 262144
  ELSE LET a == Magnitude(t[2])
           e == a \div 8388608 - 127
           m == 8388608 + (a % 8388608)
           s == IF t[2] < 0 THEN -1 ELSE 1
       IN  IF e >= -1 THEN s * m * 2^(e + 1) ELSE IF e < -25 THEN 0 ELSE s * (m \div 2^(-e - 1))
Below2(t) == IsFin(t) /\ Abs(FxOf(t)) < 131000

NegT(t) == IF t[1] = 0 THEN Ex(-t[2])
           ELSE IF t[1] = 1 THEN <<1, IF t[2] < 0 THEN Magnitude(t[2]) ELSE (t[2] - 2147483647) - 1, -t[3]>>
           ELSE t

SumOf(a, b, sg) ==
  IF ~IsFin(a) \/ ~IsFin(b) THEN Fallback({a, b})
  ELSE LET x == Aligned(<<a, b>>) IN Scaled(x.m[1] + sg * x.m[2], x.e, 4)

AddT(a, b) ==
  IF IsEx(a) /\ IsEx(b) /\ Abs(a[2] + b[2]) < ExMax THEN Ex(a[2] + b[2]) ELSE SumOf(a, b, 1)

SubT(a, b) ==
  IF IsEx(a) /\ IsEx(b) /\ Abs(a[2] - b[2]) < ExMax THEN Ex(a[2] - b[2]) ELSE SumOf(a, b, -1)

\* Sum over k of sgn[k] * a[k] * b[k], for sequences of finite tokens of any size.
AnySum(a, b, sgn) ==
  LET n == Len(a)
      x == TLCEval([k \in 1..n |-> Sci(a[k])])
      y == TLCEval([k \in 1..n |-> Sci(b[k])])
      e == MaxOf([k \in 1..n |-> x[k][2] + y[k][2]])
      p == TLCEval([k \in 1..n |-> AtExp(sgn[k] * Mul(x[k][1], y[k][1]), x[k][2] + y[k][2] - e)])
  IN  Scaled(Sum(p), e, 4 + 5 * Sum([k \in 1..n |-> Abs(sgn[k])]))

\* Sum over k of sgn[k] * a[k] * b[k], for sequences of tokens.
SumProd(a, b, sgn) ==
  LET n == Len(a)
      \* products below 2^26 (2^14 as numbers)
      small == \A k \in 1..n : IsEx(a[k]) /\ IsEx(b[k]) /\ Abs(b[k][2]) <= 67108864 \div MaxI(1, Abs(a[k][2]))
  IN
  IF small
  THEN LET p == TLCEval([k \in 1..n |-> sgn[k] * a[k][2] * b[k][2]])
           s == Sum(p)
           m == Sum([k \in 1..n |-> Abs(p[k])])
       IN  IF m < ExMax
           THEN IF s % 64 = 0 THEN Ex(s \div 64) ELSE Approx(s * 16, 2)
           ELSE IF m < 67108864
           THEN Approx(s * 16, 4 + (m \div 131072))
           ELSE Scaled(s \div 64, 10, 4 + (m \div 16777216))
  ELSE IF \A k \in 1..n : IsFin(a[k]) /\ IsFin(b[k])
  THEN AnySum(a, b, sgn)
  ELSE Fallback({a[k] : k \in 1..n} \cup {b[k] : k \in 1..n})

Plus(n) == [k \in 1..n |-> 1]
MulT(a, b) == SumProd(<<a>>, <<b>>, <<1>>)

\* Square root of the sum of squares.
SumSq(a) ==
  LET n == Len(a) IN
  IF \A k \in 1..n : IsEx(a[k]) /\ Abs(a[k][2]) <= 4096
  THEN Sum([k \in 1..n |-> a[k][2] * a[k][2]])      \* in 1/4096
  ELSE -1
NormT(a) ==
  LET s == SumSq(a) IN
  IF s >= 0 /\ s < 67108864
  THEN LET r == Sqrt(s * 16) IN Approx(r, 4 + (r \div 262144))
  ELSE IF \E k \in 1..Len(a) : ~IsFin(a[k]) THEN Maybe
  ELSE LET x == Aligned(a) IN
       IF x.e < -7     \* square in units of 2^-16 directly
       THEN Approx(ISqrt(Sum([k \in 1..Len(a) |-> FxOf(a[k]) * FxOf(a[k])])), 3)
       ELSE IF x.e >= 59 THEN Maybe
       ELSE Scaled(NormFx(x.m), x.e, 6 + Len(a) \div 2)

\* Vector norm: not above the tolerance 1e-4 (6.55 units) counts as zero.
VNormT(a) ==
  LET t == NormT(a) IN
  IF t[1] # 7 THEN t
  ELSE IF t[2] <= 3 THEN Zero
  ELSE IF t[2] <= 11 THEN <<10, t[2], t[3]>>
  ELSE t

PowT(a, s) ==
  IF ~IsEx(s) THEN Maybe
  ELSE IF s[2] = 0 THEN Approx(ONE, 2)
  ELSE IF s[2] = 64
  THEN IF Medium(a) THEN Approx(FxOf(a), 1 + Ulp(FxOf(a))) ELSE Fallback({a})
  ELSE IF s[2] = 128
  THEN IF Small(a) THEN Approx(Sq(FxOf(a)), 24) ELSE Fallback({a})
  ELSE IF s[2] = 192
  THEN IF Small(a) THEN LET q == Sq(FxOf(a)) IN
                        IF Abs(q) <= 524288 THEN Approx(Mul(q, FxOf(a)), 300) ELSE AnyFin
       ELSE Maybe
  ELSE IF s[2] = 32
  THEN IF ~Known(a) THEN Maybe
       ELSE IF FxOf(a) < -1 THEN Bad
       ELSE IF IsEx(a) /\ a[2] >= 0 /\ Medium(a) THEN Approx(Sqrt(FxOf(a)), 3)
       ELSE Maybe
  ELSE IF s[2] = -64
  THEN IF IsEx(a) /\ a[2] = 0 THEN Bad
       ELSE IF IsEx(a) /\ Abs(a[2]) < 65536 THEN LET q == Div(ONE, FxOf(a)) IN Approx(q, 2 + Ulp(q))
       ELSE Maybe
  ELSE Maybe

\* Component of the unit vector along a.
UnitT(a, k) ==
  LET s == SumSq(a) IN
  IF s > 0 \/ (s < 0 /\ \A j \in 1..Len(a) : IsEx(a[j]) /\ Abs(a[j][2]) <= 4194304)
  THEN LET u == UnitOfInts([j \in 1..Len(a) |-> a[j][2]]) IN Approx(u[k], 12)
  ELSE IF \E j \in 1..Len(a) : ~IsFin(a[j]) THEN Maybe
  ELSE LET x == Aligned(a) IN
       IF x.e >= 59 THEN Maybe ELSE Approx(NormalizeFx(x.m)[k], 8)

\* (1 - t) a + t b for 0 <= t <= 1; every order of evaluation is as good as the larger of both ends.
LerpT(a, b, t) ==
  IF IsEx(t) /\ IsEx(a) /\ IsEx(b) /\ Abs(a[2]) < 65536 /\ Abs(b[2]) < 65536
  THEN LET s == (64 - t[2]) * a[2] + t[2] * b[2]
       IN  Approx(s * 16, 4 + (Abs(s) \div 65536))
  ELSE IF ~IsFin(a) \/ ~IsFin(b) THEN Fallback({a, b})
  ELSE LET x == Aligned(<<a, b>>) IN
       Scaled(Mul(ONE - FxOf(t), x.m[1]) + Mul(FxOf(t), x.m[2]), x.e, 10)

\* Does an observed token satisfy an expected one?
MatchT(exp, act) ==
  CASE exp[1] = 0 -> act = exp
    [] exp[1] = 1 -> act = exp
    [] exp[1] = 5 -> IsFin(act)
    [] exp[1] = 6 -> act \in {TrueT, FalseT}
    [] exp[1] = 7 -> IsFin(act) /\ Near(FxOf(act), exp[2], exp[3])
    [] exp[1] = 9 -> IsFin(act)
    [] exp[1] = 13 -> IsFin(act) /\ LET x == Sci(act) IN x[2] - exp[3] <= 8 /\ Near(AtExp(x[1], x[2] - exp[3]), exp[2], exp[4])
    [] exp[1] = 10 -> IsFin(act) /\ (act = Zero \/ Near(FxOf(act), exp[2], exp[3]))
    [] OTHER -> FALSE
===============================================================================
