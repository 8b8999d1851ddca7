------------------------------- MODULE MC_Complex -------------------------------
(***************************************************************************)
(* Complex registers holding 0, 1, -1, i or -i under every operation that  *)
(* stays in this set; the operators of Scalars are exact on it.  Every     *)
(* transition is printed as a call for the library.                        *)
(***************************************************************************)
EXTENDS Scalars

CONSTANT Registers

VARIABLE z

C(a, b) == <<Ex(64 * a), Ex(64 * b)>>
Set == {C(0, 0), C(1, 0), C(-1, 0), C(0, 1), C(0, -1)}
Nan == <<2, 0>>
Regs == 0..(Registers - 1)

Part(x) == x[1][2] \div 64 + 3 * (x[2][2] \div 64)
Name(r) == [k \in 1..Registers |-> Part(r[k])]
Take(op, i, t) ==
  LET x == ZCall(op, i, t, z)
      new == IF TRUE \in x.refuse THEN z ELSE x.z
  IN  /\ \A r \in 1..4 : new[r] \in Set
      /\ z' = new
      /\ PrintT(<<"EDGE", Name(z), op, i, t, Name(new)>>)

Init == z = [r \in 1..4 |-> C(0, 0)]
Next ==
  \/ \E d \in Regs :
       \/ \E x \in Set : Take("z_new", <<d>>, x)
       \/ \E x \in {Ex(-64), Ex(0), Ex(64), Nan, <<3, 0>>} : Take("z_re", <<d>>, <<x>>) \/ Take("z_im", <<d>>, <<x>>)
       \/ Take("z_new", <<d>>, <<Nan, Ex(64)>>) \/ Take("z_new", <<d>>, <<Ex(64), <<4, 0>>>>)
       \/ Take("z_polar", <<d>>, <<<<4, 0>>, Ex(64)>>) \/ Take("z_polar", <<d>>, <<Ex(64), Nan>>)
       \/ Take("z_neg", <<d>>, <<>>) \/ Take("z_conj", <<d>>, <<>>) \/ Take("z_mod", <<d>>, <<>>)
  \/ \E d \in Regs, a \in Regs, b \in Regs : \E op \in {"z_add", "z_sub", "z_mul", "z_div"} : Take(op, <<d, a, b>>, <<>>)
  \/ \E d \in Regs, a \in Regs : Take("z_swap", <<d, a>>, <<>>)
Spec == Init /\ [][Next]_z

Held == \A r \in 1..4 : z[r] \in Set

\* ---- laws of the operators on a grid of Gaussian numbers -------------------------------
Grid == {<<Ex(32 * a), Ex(32 * b)>> : a \in -3..3, b \in -3..3}
Small4 == {<<Ex(64 * a), Ex(64 * b)>> : a \in -2..2, b \in -2..2}
One == C(1, 0)
ASSUME Commute == \A a \in Grid, b \in Grid : ZAdd(a, b) = ZAdd(b, a) /\ ZMul(a, b) = ZMul(b, a) /\ ZSub(a, b) = ZAdd(a, ZNeg(b))
ASSUME Neutral == \A a \in Grid : ZMul(a, One) = a /\ ZAdd(a, C(0, 0)) = a /\ ZAdd(a, ZNeg(a)) = C(0, 0) /\ ZConj(ZConj(a)) = a
ASSUME Distribute == \A a \in Small4, b \in Small4, c \in Small4 :
                       /\ ZMul(a, ZAdd(b, c)) = ZAdd(ZMul(a, b), ZMul(a, c))
                       /\ ZMul(a, ZMul(b, c)) = ZMul(ZMul(a, b), c)
ASSUME Conjugate == \A a \in Small4, b \in Small4 : ZConj(ZMul(a, b)) = ZMul(ZConj(a), ZConj(b))
ASSUME Quotient == \A a \in Small4, b \in Small4 : b = C(0, 0) \/ ZDiv(ZMul(a, b), b) = a
ASSUME Square == \A a \in Small4 : ZMul(a, ZConj(a)) = <<Ex((a[1][2] * a[1][2] + a[2][2] * a[2][2]) \div 64), Zero>>
ASSUME Nothing == Vanishes(C(0, 0)) = {TRUE} /\ \A a \in Grid \ {C(0, 0)} : Vanishes(a) = {FALSE}
\* e^(x + y) = e^x e^y and e^(i pi) = -1 within rounding
Val(t) == IF t[1] = 7 THEN t[2] ELSE IF t[1] = 13 THEN AtExp(t[2], t[3]) ELSE FxOf(t)
ASSUME Euler == LET e == ZExp(<<Zero, <<1, 1078530011, 205887>>>>) IN Near(Val(e[1]), -ONE, 16) /\ Near(Val(e[2]), 0, 16)
ASSUME Polar == \A r \in 1..4, t \in -6..6 : LET p == ZPolar(Ex(64 * r), Ex(32 * t)) IN
                  Near(Sq(Val(p[1])) + Sq(Val(p[2])), r * r * ONE, 64 * r)
\* Arithmetic on numbers of any size agrees with the exact one.
Sizes == {Ex(n) : n \in {0, 1, -3, 64, -77, 4095, -8191}}
ASSUME AnySize == \A a \in Sizes, b \in Sizes, c \in Sizes, d \in Sizes :
                    /\ LET s == a[2] * b[2] - c[2] * d[2] IN
                       s % 64 = 0 /\ Abs(s) < 64 * ExMax => MatchT(AnySum(<<a, c>>, <<b, d>>, <<1, -1>>), Ex(s \div 64))
                    /\ MatchT(SumOf(a, b, 1), Ex(a[2] + b[2]))
ASSUME Powers == \A k \in -126..127 : Sci(<<1, (k + 127) * 8388608, 0>>) = <<ONE, k>>
ASSUME FactorialLaw == \A n \in 1..20 : Factorial(n) = Times(Factorial(n - 1), n)
ASSUME FactorialKnown == Factorial(10) = <<8800, 362>> /\ Factorial(20) = <<0, 7664, 81, 2902, 243>>
ASSUME OrderLaw == Key(0) = Key(MinInt) /\ Key(1065353216) > Key(1056964608) /\ Key(-1082130432) < Key(-1090519040) /\ Key(-1) < 0
===============================================================================
