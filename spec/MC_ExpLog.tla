------------------------------- MODULE MC_ExpLog -------------------------------
(***************************************************************************)
(* Turning about a fixed axis in equal steps: the attitude is multiplied   *)
(* by the exponential of half a step.  After any number of steps it is the  *)
(* exponential of half the angle turned, its matrix is Rodrigues' rotation, *)
(* and the logarithm of that matrix is the axis times the angle.  Along the *)
(* way, exponentials and logarithms are printed as calls to be replayed.   *)
(***************************************************************************)
EXTENDS Rotation, FiniteSets

Axes == << <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>, <<-1, 0, 0>>, <<0, 0, -1>>,
           <<1, 1, 0>>, <<0, -1, 1>>, <<1, 2, 2>>, <<-2, 1, 2>>, <<-3, -4, 1>> >>
DELTA == 16384                   \* a quarter of a radian
MAXN == 12                       \* up to three radians
Reals == {-64, -1, 0, 7, 64, 96}  \* real parts tried for the exponential, in 1/64

VARIABLES ax,   \* 0 before an axis is chosen
          n,    \* steps taken
          q     \* attitude
vars == <<ax, n, q>>

Unit(a) == NormalizeFx([k \in 1..3 |-> Axes[a][k] * 8192])
Angle == n * DELTA

\* Exponential of a pure quaternion, by its power series (independent of sine and cosine).
RECURSIVE Series(_, _, _, _)
Series(v, term, k, acc) ==
  IF k > 20 THEN acc
  ELSE LET t == TLCEval(QMul(term, v))
           d == TLCEval([j \in 1..4 |-> t[j] \div k])
       IN  Series(v, d, k + 1, AddV(acc, d))
ExpPure(v) == Series(<<0, v[1], v[2], v[3]>>, IdQ, 1, IdQ)

Skew(a) == <<0, -a[3], a[2], a[3], 0, -a[1], -a[2], a[1], 0>>
\* I + sin t K + (1 - cos t) K^2
Rodrigues(u, t) ==
  LET K == Skew(u)
      K2 == M3(K, K)
      s == Sin(t)
      c == ONE - Cos(t)
  IN  TLCEval([k \in 1..9 |-> I3[k] + Mul(s, K[k]) + Mul(c, K2[k])])

Toks(v) == [k \in DOMAIN v |-> <<0, v[k]>>]
Emit(op, v, dst) == PrintT(<<"EDGE", <<ax, n>>, op, <<>>, Toks(v), dst>>)

Init == ax = 0 /\ n = 0 /\ q = IdQ

ChooseAxis(a) ==
  /\ ax = 0
  /\ ax' = a
  /\ Emit("logaa", <<64 * Axes[a][1], 64 * Axes[a][2], 64 * Axes[a][3], 0>>, <<a, 0>>)
  /\ UNCHANGED <<n, q>>

Turn ==
  /\ ax > 0 /\ n < MAXN
  /\ n' = n + 1
  /\ q' = QMul(q, ExpPure(MulV(Unit(ax), DELTA \div 2)))
  /\ Emit("logaa", <<64 * Axes[ax][1], 64 * Axes[ax][2], 64 * Axes[ax][3], 16 * (n + 1)>>, <<ax, n + 1>>)
  /\ UNCHANGED ax

\* Exponential of real part plus n eighths of the (unnormalised) axis.
Exponential ==
  /\ ax > 0
  /\ \A w \in Reals : Emit("exp", <<w, 8 * n * Axes[ax][1], 8 * n * Axes[ax][2], 8 * n * Axes[ax][3]>>, <<ax, n>>)
  /\ UNCHANGED vars

Next == (\E a \in 1..Len(Axes) : ChooseAxis(a)) \/ Turn \/ Exponential
Spec == Init /\ [][Next]_vars

Started == ax > 0
UnitNorm == Near(DotFx(q, q), ONE, 160)
HalfAngle ==
  Started => LET u == Unit(ax)
                 h == Angle \div 2
             IN  NearV(q, <<Cos(h), Mul(Sin(h), u[1]), Mul(Sin(h), u[2]), Mul(Sin(h), u[3])>>, 128)
MatrixIsRodrigues == Started => NearV(Dcm(q), Rodrigues(Unit(ax), Angle), 256)
LogInverts ==
  Started => LET u == Unit(ax)
                 m == Rodrigues(u, Angle)
                 lg == Skew(MulV(u, Angle))
             IN  /\ LogFaults(u, Angle, m, <<lg, lg, m>>) = {}
                 \* turning the other way, or an angle that is off, is not accepted
                 /\ n > 0 => LogFaults(u, Angle, m, <<T3(lg), lg, m>>) # {}
                 /\ LogFaults(u, Angle, m, <<Skew(MulV(u, Angle + 400)), lg, m>>) # {}
ExpJudged ==
  Started => \A w \in {0, ONE, -ONE} :
    LET v == MulV(Unit(ax), Angle)
        p == ExpPure(v)
        e == Exp(w)
        x == MulV(p, e)
        arg == <<w, v[1], v[2], v[3]>>
    IN  /\ ExpFaults(arg, <<x, x, arg>>) = {}
        /\ w # 0 => ExpFaults(arg, <<p, x, arg>>) = {"in place"}
        /\ ExpFaults(arg, <<x, x, x>>) # {}
\* e^w e^-w = 1
ExpLaw == \A w \in {0, 10000, ONE, 2 * ONE} : Near(Mul(Exp(w), Exp(-w)), ONE, 24)
===============================================================================
