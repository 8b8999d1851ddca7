-------------------------------- MODULE Filters --------------------------------
(***************************************************************************)
(* Attitude filters in fixed point: integration of body rates, attitude    *)
(* from acceleration and field, and the predict-and-correct step of AQUA.  *)
(* Attitudes are quaternions <<w, x, y, z>> that turn the global frame's   *)
(* vectors into sensor coordinates by Dcm(q); gravity is seen along         *)
(* Dcm(q) (0, 0, -1).                                                      *)
(***************************************************************************)
EXTENDS Rotation, Sensors

FxV(v) == TLCEval([k \in DOMAIN v |-> FxOf(v[k])])
Tame(v, lim) == \A k \in DOMAIN v : Abs(v[k]) <= lim

\* ---- integration of rates --------------------------------------------------
HalfTurn(w, ts) == TLCEval([k \in 1..3 |-> SatMul(w[k], ts) \div 2])
ExpQ(h) ==
  LET n == NormFx(h)
      s == Sinc(n)
  IN  <<Cos(n), Mul(h[1], s), Mul(h[2], s), Mul(h[3], s)>>
Closed(q, h) == QMul(q, ExpQ(h))
RECURSIVE Terms(_, _, _, _, _)
Terms(term, v, k, order, acc) ==
  IF k > order \/ k > 20 THEN acc
  ELSE LET t == TLCEval(QMul(term, v))
           d == TLCEval([j \in 1..4 |-> t[j] \div k])
       IN  Terms(d, v, k + 1, order, AddV(acc, d))
Series(q, h, order) == Terms(q, <<0, h[1], h[2], h[3]>>, 1, order, q)
FirstOrder(q, h) == AddV(q, TLCEval(QMul(q, <<0, h[1], h[2], h[3]>>)))

\* method 0 closed form, 1 series, 2 Euler
Integrate(q, w, ts, method, order) ==
  LET h == HalfTurn(w, ts)
  IN  NormalizeFx(CASE method = 0 -> Closed(q, h)
                    [] method = 1 -> Series(q, h, order)
                    [] method = 2 -> FirstOrder(q, h))

\* ---- attitude from acceleration and field ------------------------------------
Down == <<0, 0, -ONE>>
\* Unit vector along a fixed-point vector of components up to 1024.
Shrunk(v, n) == TLCEval([k \in DOMAIN v |-> v[k] \div n])
Dir(v) == IF Tame(v, 128 * ONE) THEN UnitOfInts(v) ELSE UnitOfInts(Shrunk(v, 16))
Level(q, a, tol) == NearV(MV3(Dcm(q), Down), a, tol)
\* The field seen from the global frame.
GlobalField(q, m) == MV3(T3(Dcm(q)), m)
North(q, m, tol) == LET g == GlobalField(q, m) IN Abs(g[2]) <= tol /\ g[1] >= -tol
Explains(q, a, m, tol) == Level(q, a, tol) /\ North(q, m, tol)
\* Squared sine of the angle between two unit vectors.
Sin2(a, m) == ONE - Sq(Clip(DotFx(a, m), -ONE, ONE))

\* ---- AQUA with gyrometer --------------------------------------------------------
Near0(x) == Abs(x) <= 48

\* Rotations that align the predicted gravity g (global frame) with straight down.
TiltUp(g) == LET n == Sqrt((ONE - g[3]) \div 2) IN <<n, Div(g[2], 2 * n), -Div(g[1], 2 * n), 0>>
TiltDown(g) == LET n == Sqrt((ONE + g[3]) \div 2) IN <<Div(g[2], 2 * n), n, 0, -Div(g[1], 2 * n)>>
Tilts(g) == (IF g[3] < 0 \/ Near0(g[3]) THEN {TiltUp(g)} ELSE {})
            \cup (IF g[3] >= 0 \/ Near0(g[3]) THEN {TiltDown(g)} ELSE {})

\* Rotations about the vertical that turn the field (x, y) to north, scalar part not negative.
Headings(x, y) ==
  LET r == NormFx(<<x, y>>)
      c == Clip(Div(x, r), -ONE, ONE)
      s == Clip(Div(y, r), -ONE, ONE)
      plus(sg) == LET z == Sqrt((ONE - c) \div 2) IN <<Div(Abs(s), 2 * z), 0, 0, sg * z>>
  IN  IF c >= 0 THEN LET w == Sqrt((ONE + c) \div 2) IN {<<w, 0, 0, Div(s, 2 * w)>>}
      ELSE (IF s >= 0 \/ Near0(s) THEN {plus(1)} ELSE {}) \cup (IF s < 0 \/ Near0(s) THEN {plus(-1)} ELSE {})

\* A fraction of a rotation: on the chord for rotations close to the identity, else on the arc.
OnChord(q, al) == NormalizeFx(<<ONE - al + Mul(al, q[1]), Mul(al, q[2]), Mul(al, q[3]), Mul(al, q[4])>>)
OnArc(q, al) ==
  LET v == <<q[2], q[3], q[4]>>
      s == NormFx(v)
      om == AngleOf(q[1], s)
  IN  IF om < 1000 THEN OnChord(q, al)
      ELSE LET f == Div(Sin(Mul(al, om)), s) IN <<Cos(Mul(al, om)), Mul(f, q[2]), Mul(f, q[3]), Mul(f, q[4])>>
Fractions(q, al, thr) ==
  (IF q[1] > thr \/ Near0(q[1] - thr) THEN {OnChord(q, al)} ELSE {})
  \cup (IF q[1] <= thr \/ Near0(q[1] - thr) THEN {OnArc(q, al)} ELSE {})

\* Length of an acceleration of components up to 1024, and its relative deviation from the reference.
Length(a) == IF Tame(a, 4 * ONE) THEN NormFx(a) ELSE IF Tame(a, 32 * ONE) THEN 8 * NormFx(Shrunk(a, 8)) ELSE 256 * NormFx(Shrunk(a, 256))
MagnitudeError(a, g) == Div(Abs(Length(a) - g), g)
Gain(al, a, g, t1, t2) ==
  LET e == MagnitudeError(a, g)
  IN  IF e <= t1 THEN al ELSE IF e >= t2 THEN 0 ELSE Mul(al, Div(t2 - e, t2 - t1))

\* All attitudes a sample may lead to (more than one only next to a branch of the method).
\* p = [ts, alpha, beta, t1, t2, ta, tm, g, adaptive]
Predicted(q, w, ts) == NormalizeFx(FirstOrder(q, HalfTurn(w, ts)))
Leveled(q, a, p) ==
  LET g == MV3(T3(Dcm(q)), Dir(a))
      al == IF p.adaptive THEN Gain(p.alpha, a, p.g, p.t1, p.t2) ELSE p.alpha
  IN  {TLCEval(QMul(q, f)) : f \in UNION {Fractions(t, al, p.ta) : t \in Tilts(g)}}
Headed(q, m, p) ==
  LET g == MV3(T3(Dcm(q)), Dir(m))
  IN  {NormalizeFx(QMul(q, f)) : f \in UNION {Fractions(t, p.beta, p.tm) : t \in Headings(g[1], g[2])}}
MargSteps(q, w, a, m, p) == UNION {Headed(l, m, p) : l \in Leveled(Predicted(q, w, p.ts), a, p)}
\* The field leaves a heading on every way through the step; how clearly, as squared share of the field.
Steady(q, w, a, m, p, least) ==
  \A l \in Leveled(Predicted(q, w, p.ts), a, p) :
    LET g == MV3(T3(Dcm(l)), Dir(m)) IN Sq(g[1]) + Sq(g[2]) > least

Same(q, x, tol) == NearV(q, x, tol) \/ NearV(NegQ(q), x, tol)
UnitQ(q, tol) == Len(q) = 4 /\ Tame(q, 2 * ONE) /\ Near(DotFx(q, q), ONE, tol)

\* ---- generated attitudes -----------------------------------------------------------
\* A sequence of attitudes starts near the identity and moves by at most the step angle.
STEP == 3217                 \* pi / 64
Before(q, k) == IF k = 1 THEN IdQ ELSE q[k - 1]
InSteps(q, tol) == \A k \in 1..Len(q) : NormFx(SubV(q[k], Before(q, k))) <= STEP + tol
Turned(q, k) == QMul(Conj(Before(q, k)), q[k])
CrossV(u, v) == <<Mul(u[3], v[4]) - Mul(u[4], v[3]), Mul(u[4], v[2]) - Mul(u[2], v[4]), Mul(u[2], v[3]) - Mul(u[3], v[2])>>
OneAxis(q, tol) == \A k \in 2..Len(q) : Tame(CrossV(Turned(q, k - 1), Turned(q, k)), tol)
\* Towards a target on the great arc, by the step angle at most; undecided for opposite ends.
Arc(a, b) == 2 * AngleOf(NormFx(AddV(a, b)) \div 2, NormFx(SubV(a, b)) \div 2)
Towards(a, b) ==
  LET om == Arc(a, b) IN
  IF om <= STEP THEN b
  ELSE LET s == Sin(om)
           x == Sin(om - STEP)
           y == Sin(STEP)
       IN  NormalizeFx([k \in 1..4 |-> Div(Mul(x, a[k]) + Mul(y, b[k]), s)])

\* ---- life of the filters ---------------------------------------------------------
\* Which calls are refused.  Parameters come as the calls carry them: t holds the attitude (4), the
\* period and the gyrometer calibration (12) of the rate filter; the attitude (4), nine parameters and
\* the calibrations of gyrometer, accelerometer and magnetometer (12 each) of AQUA.
ArRefuses(init, t) == init \/ ~AllFin(SubSeq(t, 1, 4)) \/ ~AllFin(SubSeq(t, 6, 17))

\* i = <<mode, mask of given attitude parts, gyrometer calibration given, ...>>; mode 0 uses the gyrometer
AqCal(t, k) == SubSeq(t, 14 + 12 * k, 25 + 12 * k)
AqRefuses(init, i, t) ==
  \/ init
  \/ i[1] = 0 /\ (i[3] = 0 \/ ~AllFin(AqCal(t, 0)))
  \/ ~AllFin(AqCal(t, 1)) \/ ~AllFin(AqCal(t, 2))
  \/ i[2] \notin {0, 15}
  \/ i[2] = 15 /\ ~AllFin(SubSeq(t, 1, 4))
\* A sample that cannot be used: t holds rates, acceleration and field, mask the rates given.
BadSample(marg, mask, t) ==
  \/ ~AllFin(SubSeq(t, 4, 9))
  \/ marg /\ (mask # 7 \/ ~AllFin(SubSeq(t, 1, 3)))

\* Weights above zero (up to the tolerance 1e-4) and at most one.
Weight(t) == IsFin(t) /\ FxOf(t) >= 8 /\ ~AboveOne(t)
NoWeight(t) == ~IsFin(t) \/ FxOf(t) <= 5 \/ AboveOne(t)
===============================================================================
