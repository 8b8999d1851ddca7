-------------------------------- MODULE Scalars --------------------------------
(***************************************************************************)
(* Scalar helpers and complex arithmetic.  Floats are ordered by their bit *)
(* patterns; a complex number is a pair of tokens.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Fx, Tok

\* ---- order of floats ------------------------------------------------------------
\* Bit patterns as signed integers; the key is monotonic and equal for both zeros.
MinInt == -2147483647 - 1
Key(b) == IF b >= 0 THEN b ELSE MinInt - b
IsNaN(t) == t[1] = 2

\* ---- helpers on ordered values ------------------------------------------------------
Within(v, lo, hi) == lo <= v /\ v <= hi
Clamp(v, lo, hi) == IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v
Truth(b) == IF b THEN 1 ELSE 0

\* Decimal digits in groups of four, least significant first.
RECURSIVE Carry(_, _)
Carry(d, c) == IF d = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c % 10000>> \o Carry(<<>>, c \div 10000))
               ELSE <<(d[1] + c) % 10000>> \o Carry(Tail(d), (d[1] + c) \div 10000)
Times(d, n) == Carry([k \in 1..Len(d) |-> d[k] * n], 0)
RECURSIVE Factorial(_)
Factorial(n) == IF n <= 1 THEN <<1>> ELSE Times(Factorial(n - 1), n)

\* Which answers a tolerance comparison may give: {TRUE}, {FALSE} or both next to the bound.
Close(x, y, d) ==
  IF IsNaN(d) THEN BOOLEAN
  ELSE IF d[1] = 4 THEN {FALSE}
  ELSE IF d[1] = 3 THEN {TRUE}
  ELSE IF IsEx(x) /\ IsEx(y) /\ IsEx(d) THEN {Abs(x[2] - y[2]) <= d[2]}
  ELSE IF x = y THEN {~Negative(d)}
  ELSE IF Medium(x) /\ Medium(y) /\ Known(d)
  THEN LET e == Abs(FxOf(x) - FxOf(y)) - FxOf(d) IN
       IF e > 2 + Ulp(FxOf(x)) + Ulp(FxOf(y)) THEN {FALSE}
       ELSE IF e < -(2 + Ulp(FxOf(x)) + Ulp(FxOf(y))) THEN {TRUE} ELSE BOOLEAN
  ELSE IF FxOf(x) = FxMax /\ FxOf(y) = -FxMax /\ Medium(d) THEN {FALSE}
  ELSE IF FxOf(y) = FxMax /\ FxOf(x) = -FxMax /\ Medium(d) THEN {FALSE}
  ELSE BOOLEAN

MaxSize == 4
Verdict(s, e) == IF s = "ok" THEN "" ELSE e

\* What is wrong with an observed helper call.
UtilFaults(op, i, t, w, s, e, v) ==
  LET k == [j \in 1..Len(w) |-> Key(w[j])]
      nan == \E j \in 1..Len(t) : IsNaN(t[j])
      same(x) == Len(v) = 1 /\ Key(v[1]) = x
      is(x) == v = <<x>>
      If(b, f) == IF b THEN {} ELSE {f}
  IN
  IF op = "u_fact" /\ i[1] > 20 THEN {}
  ELSE IF s = "panic" THEN {"panic"}
  ELSE CASE
     op = "u_valid" -> IF IsFin(t[1]) THEN If(s = "ok", "refused")
                       ELSE If(s = "err" /\ e = (IF IsNaN(t[1]) THEN "Nan" ELSE "Inf"), "accepted")
  [] op = "u_close" ->
       IF ~IsFin(t[1]) \/ ~IsFin(t[2])
       THEN If(s = "err" /\ e \in {IF IsNaN(t[j]) THEN "Nan" ELSE "Inf" : j \in {q \in 1..2 : ~IsFin(t[q])}}, "accepted")
            \cup If(v[2] = 2, "accepted in the other order")
       ELSE IF s = "err" \/ v[2] = 2 THEN {"refused"}
       ELSE If(v[1] = v[2], "symmetric") \cup If(v[1] \in {Truth(b) : b \in Close(t[1], t[2], t[3])}, "value")
  [] op = "u_frange" -> If(is(Truth(~nan /\ Within(k[1], k[2], k[3]))), "value")
  [] op = "u_fmin" -> IF nan THEN {} ELSE If(same(MinI(k[1], k[2])), "value")
  [] op = "u_fmax" -> IF nan THEN {} ELSE If(same(MaxI(k[1], k[2])), "value")
  [] op = "u_fclip" -> IF nan \/ k[2] > k[3] THEN {} ELSE If(same(Clamp(k[1], k[2], k[3])), "value")
  [] op = "u_fsign" -> IF nan THEN {} ELSE If(same(Sgn(k[1]) * 1065353216) \/ (k[1] < 0 /\ v = <<-1082130432>>), "value")
  [] op \in {"u_irange", "u_brange", "u_drange"} -> If(is(Truth(Within(i[1], i[2], i[3]))), "value")
  [] op \in {"u_imin", "u_bmin", "u_dmin"} -> If(is(MinI(i[1], i[2])), "value")
  [] op \in {"u_imax", "u_bmax", "u_dmax"} -> If(is(MaxI(i[1], i[2])), "value")
  [] op \in {"u_iclip", "u_bclip", "u_dclip"} -> IF i[2] > i[3] THEN {} ELSE If(is(Clamp(i[1], i[2], i[3])), "value")
  [] op \in {"u_isign", "u_dsign"} -> If(is(Sgn(i[1])), "value")
  [] op = "u_fact" -> If(v = Factorial(i[1]), "value")
  [] op = "u_rows" -> If(Verdict(s, e) = (IF i[1] = 0 THEN "RowsNumberNull" ELSE IF i[1] > MaxSize THEN "RowsNumberOverflow" ELSE ""), "verdict")
  [] op = "u_cols" -> If(Verdict(s, e) = (IF i[1] = 0 THEN "ColsNumberNull" ELSE IF i[1] > MaxSize THEN "ColsNumberOverflow" ELSE ""), "verdict")
  [] op = "u_row" -> If(Verdict(s, e) = (IF i[1] >= i[2] THEN "InvalidRow" ELSE ""), "verdict")
  [] op = "u_col" -> If(Verdict(s, e) = (IF i[1] >= i[2] THEN "InvalidCol" ELSE ""), "verdict")

\* ---- complex numbers ------------------------------------------------------------------
\* Expected parts; a part that is not finite or of unknown size in an operand leaves the result open.
Open == <<12, 0>>
Relax(t) == IF t[1] \in {8, 9} THEN Open ELSE t
Fits(exp, act) == exp = Open \/ exp = act \/ (exp[1] \notin {2, 3, 4} /\ MatchT(exp, act))

ZAdd(a, b) == <<Relax(AddT(a[1], b[1])), Relax(AddT(a[2], b[2]))>>
ZSub(a, b) == <<Relax(SubT(a[1], b[1])), Relax(SubT(a[2], b[2]))>>
ZMul(a, b) == <<Relax(SumProd(<<a[1], a[2]>>, <<b[1], b[2]>>, <<1, -1>>)), Relax(SumProd(<<a[1], a[2]>>, <<b[2], b[1]>>, <<1, 1>>))>>
\* Negation and conjugation are exact: the bit pattern of a part changes its sign only.
Flip(t) == IF t[1] = 1 THEN <<1, IF t[2] < 0 THEN (t[2] + 2147483647) + 1 ELSE t[2] + MinInt, -t[3]>>
           ELSE IF t[1] = 0 THEN Ex(-t[2]) ELSE Open
ZNeg(a) == <<Flip(a[1]), Flip(a[2])>>
ZConj(a) == <<a[1], Flip(a[2])>>

\* Both parts not above the tolerance 1e-4 (6.55 units).
Vanishes(b) == IF \A k \in 1..2 : IsFin(b[k]) /\ Abs(FxOf(b[k])) <= 5 THEN {TRUE}
               ELSE IF \A k \in 1..2 : IsFin(b[k]) /\ Abs(FxOf(b[k])) <= 8 THEN BOOLEAN
               ELSE IF \E k \in 1..2 : ~IsFin(b[k]) THEN BOOLEAN
               ELSE {FALSE}
\* (a conj b) / |b|^2
ZDiv(a, b) ==
  IF \A k \in 1..2 : IsEx(a[k]) /\ IsEx(b[k]) /\ Abs(a[k][2]) <= 4096 /\ Abs(b[k][2]) <= 4096
  THEN LET m == b[1][2] * b[1][2] + b[2][2] * b[2][2]
           quo(n) == IF Abs(n) \div m >= 4096 THEN AnyFin
                     ELSE LET q == Div(n, m) IN
                          IF n % m = 0 THEN Ex(64 * (n \div m)) ELSE Approx(q, 4 + Abs(q) \div 262144)
       IN  <<quo(a[1][2] * b[1][2] + a[2][2] * b[2][2]), quo(a[2][2] * b[1][2] - a[1][2] * b[2][2])>>
  ELSE IF \E k \in 1..2 : ~IsFin(a[k]) \/ ~IsFin(b[k]) THEN <<Open, Open>>
  ELSE LET x == Aligned(a)
           y == Aligned(b)
           m == DotFx(y.m, y.m)
           quo(n) == IF y.e >= 50 \/ x.e + y.e >= 110 THEN Open ELSE Relax(Scaled(Div(n, m), x.e - y.e, 12))
       IN  <<quo(Mul(x.m[1], y.m[1]) + Mul(x.m[2], y.m[2])), quo(Mul(x.m[2], y.m[1]) - Mul(x.m[1], y.m[2]))>>

\* r (cos t, sin t); angles up to about a hundred turns lose no accuracy that matters here.
Angle(t) == IsFin(t) /\ Abs(FxOf(t)) <= 65536 * 80
ZPolar(r, t) ==
  IF ~IsFin(r) \/ ~Angle(t) THEN <<Open, Open>>
  ELSE LET x == Sci(r)
           y == Wrap(FxOf(t))
       IN  <<Scaled(Mul(x[1], Cos(y)), x[2], 24), Scaled(Mul(x[1], Sin(y)), x[2], 24)>>
\* e^x (cos y, sin y) with e^x = 2^k e^r, |r| <= (ln 2) / 2; magnitudes not above 1e-4 count as zero.
ZExp(a) ==
  IF ~Known(a[1]) \/ ~Angle(a[2]) THEN <<Open, Open>>
  ELSE LET x == FxOf(a[1])
           y == Wrap(FxOf(a[2]))
       IN  IF x < -(9 * ONE + 20000) THEN <<Zero, Zero>>
           ELSE IF x < -(8 * ONE) THEN <<Approx(0, 24), Approx(0, 24)>>
           ELSE LET k == (x + 22713) \div 45426
                    m == ExpCore(x - k * 45426 - (k * 935) \div 10000)
                IN  <<Scaled(Mul(m, Cos(y)), k, 24), Scaled(Mul(m, Sin(y)), k, 24)>>

\* Outcome a call must have: whether it may or must be refused, the registers afterwards.
\* z: registers as pairs of tokens, numbered from 1; i: numbered from 0.
Zs(refuse, z) == [refuse |-> refuse, z |-> z]
ZCall(op, i, t, z) ==
  LET d == i[1] + 1
      put(x) == Zs({FALSE}, [z EXCEPT ![d] = x])
      bad == \E k \in DOMAIN t : ~IsFin(t[k])
      a == z[i[2] + 1]
      b == z[i[3] + 1]
  IN  CASE op \in {"z_new", "z_re", "z_im", "z_polar"} /\ bad -> Zs({TRUE}, z)
        [] op = "z_new" -> put(<<t[1], t[2]>>)
        [] op = "z_re" -> put(<<t[1], z[d][2]>>)
        [] op = "z_im" -> put(<<z[d][1], t[1]>>)
        [] op = "z_polar" -> put(ZPolar(t[1], t[2]))
        [] op = "z_neg" -> IF \A k \in 1..2 : IsFin(z[d][k]) THEN put(ZNeg(z[d])) ELSE Zs(BOOLEAN, [z EXCEPT ![d] = <<Open, Open>>])
        [] op = "z_conj" -> IF \A k \in 1..2 : IsFin(z[d][k]) THEN put(ZConj(z[d])) ELSE Zs(BOOLEAN, [z EXCEPT ![d] = <<Open, Open>>])
        [] op = "z_exp" -> IF IsFin(z[d][1]) /\ IsFin(z[d][2]) /\ FxOf(z[d][1]) < 80 * ONE THEN put(ZExp(z[d]))
                           ELSE Zs(BOOLEAN, [z EXCEPT ![d] = <<Open, Open>>])
        [] op = "z_mod" -> Zs(IF \A k \in 1..2 : Known(z[d][k]) THEN {FALSE} ELSE BOOLEAN, z)
        [] op = "z_add" -> put(ZAdd(a, b))
        [] op = "z_sub" -> put(ZSub(a, b))
        [] op = "z_mul" -> put(ZMul(a, b))
        [] op = "z_div" -> LET v == Vanishes(b) IN
                           IF v = {TRUE} THEN Zs({TRUE}, z) ELSE Zs(v, [z EXCEPT ![d] = ZDiv(a, b)])
        [] op = "z_swap" -> Zs({FALSE}, [z EXCEPT ![d] = a, ![i[2] + 1] = z[d]])

ZFaults(op, i, t, z, s, e, m, post) ==
  LET x == ZCall(op, i, t, z)
      refused == s = "err"
      \* a number that overflowed may be refused half way
      lost == op \in {"z_neg", "z_conj", "z_exp"} /\ \E k \in 1..2 : ~IsFin(z[i[1] + 1][k])
      want == IF refused /\ ~lost THEN z ELSE x.z
      If(b, f) == IF b THEN {} ELSE {f}
  IN  IF s = "panic" THEN {"panic"}
      ELSE If(refused \in x.refuse, IF refused THEN "refused" ELSE "accepted")
           \cup If(~refused \/ e \in {"Nan", "Inf"}, "errkind")
           \cup If(\A r \in 1..4 : \A k \in 1..2 : Fits(want[r][k], post[r][k]), "parts")
           \cup (IF op # "z_mod" \/ refused \/ \E k \in 1..2 : ~IsFin(z[i[1] + 1][k]) THEN {}
                 ELSE If(Len(m) = 1 /\ Fits(Relax(VNormT(z[i[1] + 1])), m[1]), "modulus"))
===============================================================================
