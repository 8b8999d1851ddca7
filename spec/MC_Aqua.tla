-------------------------------- MODULE MC_Aqua --------------------------------
(***************************************************************************)
(* AQUA with a gyrometer at rest, fed the same acceleration and field over *)
(* and over from every attitude of a finite set.  Every step keeps the     *)
(* attitude a unit quaternion, a tilt below a quarter turn never grows, and after   *)
(* the last step the attitude explains both sensors.                       *)
(***************************************************************************)
EXTENDS Filters

CONSTANTS Steps, Starts, Fields, Gains

VARIABLES q, n, s, g       \* attitude, samples taken, sensor pair, gain pair
vars == <<q, n, s, g>>

Pm == {-1, 1}
Axes == {<<ONE, 0, 0, 0>>, <<0, ONE, 0, 0>>, <<0, 0, ONE, 0>>, <<0, 0, 0, ONE>>}
Halves == {<<HALF, b * HALF, c * HALF, d * HALF>> : b \in Pm, c \in Pm, d \in Pm}
\* Rational unit quaternions off the symmetry planes.
Skew == {Dir(v) : v \in {<<4, 2, 2, 1>>, <<1, -5, 3, 1>>, <<2, 1, -6, -3>>, <<-3, 1, 2, 7>>, <<6, -5, 1, -4>>}}
Attitudes == CASE Starts = "axes" -> Axes [] Starts = "half" -> Axes \cup Halves [] Starts = "all" -> Axes \cup Halves \cup Skew

\* Acceleration and field (fixed point), never parallel.
Down9 == <<0, 0, -(9 * ONE)>>
Pairs(w) ==
  LET a1 == {Down9, <<0, 0, 9 * ONE>>, <<5 * ONE, 0, -(8 * ONE)>>, <<0, -(9 * ONE), 0>>, <<3 * ONE, -(6 * ONE), 6 * ONE>>, <<-(7 * ONE), 4 * ONE, 4 * ONE>>}
      m1 == {<<20 * ONE, 0, -(40 * ONE)>>, <<-(10 * ONE), 20 * ONE, 15 * ONE>>, <<5 * ONE, 30 * ONE, 0>>}
  IN  IF w = "few" THEN {<<Down9, m>> : m \in m1} \cup {<<<<3 * ONE, -(6 * ONE), 6 * ONE>>, m>> : m \in m1}
      ELSE {<<a, m>> : a \in a1, m \in m1}

GainPairs == CASE Gains = "one" -> {<<HALF, HALF>>}
               [] Gains = "all" -> {<<HALF, HALF>>, <<ONE \div 4, (3 * ONE) \div 4>>, <<ONE, ONE \div 4>>}
Par(al) == [ts |-> 1024, alpha |-> al[1], beta |-> al[2], t1 |-> 6554, t2 |-> 13107, ta |-> 58982, tm |-> 58982, g |-> 9 * ONE, adaptive |-> FALSE]

Far(x) == Sin2(Dir(x[1]), Dir(x[2])) > 4000
Init == q \in Attitudes /\ n = 0 /\ s \in {x \in Pairs(Fields) : Far(x)} /\ g \in GainPairs
Next == /\ n < Steps
        \* a field that is vertical after the tilt correction leaves the heading open
        /\ Steady(q, <<0, 0, 0>>, s[1], s[2], Par(g), 2500)
        /\ \E x \in MargSteps(q, <<0, 0, 0>>, s[1], s[2], Par(g)) : q' = x
        /\ n' = n + 1
        /\ UNCHANGED <<s, g>>
Spec == Init /\ [][Next]_vars

Unit == UnitQ(q, 24)
\* How far the measured gravity direction is from straight down in the global frame.
Tilt(x) == ONE + MV3(T3(Dcm(x)), Dir(s[1]))[3]
\* Within a quarter turn the tilt never grows; beyond it the method takes a detour.
Approach == [][Tilt(q) < ONE - 64 => Tilt(q') <= Tilt(q) + 64]_vars
Limit == n = Steps => Explains(q, Dir(s[1]), Dir(s[2]), 64)
===============================================================================
