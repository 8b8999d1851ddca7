------------------------------- MODULE MC_Rates -------------------------------
(***************************************************************************)
(* Integration of constant rates step by step with each method, compared   *)
(* with the turn about the fixed axis that the exact solution makes.       *)
(***************************************************************************)
EXTENDS Filters

CONSTANTS Steps, Orders

VARIABLES q, q0, n, w, m, o     \* attitude, its start, samples taken, rate, method, order
vars == <<q, q0, n, w, m, o>>

Starts == {<<ONE, 0, 0, 0>>, <<HALF, -HALF, HALF, HALF>>, <<0, 39322, 0, 52429>>}
TS == 1024                       \* 1/64
Rate == {<<ONE, 0, 0>>, <<0, -ONE, 2 * ONE>>, <<ONE \div 2, ONE \div 4, -(ONE \div 8)>>, <<4 * ONE, 3 * ONE, -(2 * ONE)>>}
Exact == QMul(q0, ExpQ([k \in 1..3 |-> (w[k] * n) \div 128]))
\* relative error of one step: none, (h^(o+1))/(o+1)! of half the turn, h^3/3
Tolerance ==
  LET h == NormFx(HalfTurn(w, TS))
      h2 == Sq(h)
  IN  8 + 4 * n + CASE m = 0 -> 0
                    [] m = 1 -> IF o >= 3 THEN 0 ELSE IF o = 2 THEN n * (Mul(h2, h) \div 4) ELSE n * (Mul(h2, h) \div 2)
                    [] m = 2 -> n * (Mul(h2, h) \div 2)

Init == q0 \in Starts /\ q = q0 /\ n = 0 /\ w \in Rate /\ m \in 0..2 /\ o \in (IF m = 1 THEN Orders ELSE {1})
Next == n < Steps /\ q' = Integrate(q, w, TS, m, o) /\ n' = n + 1 /\ UNCHANGED <<q0, w, m, o>>
Spec == Init /\ [][Next]_vars

Unit == UnitQ(q, 24)
OnCourse == Same(q, Exact, Tolerance)
\* The opposite rate undoes a step of the closed form, zero rate leaves the attitude.
Undone == m = 0 => NearV(Integrate(Integrate(q, w, TS, 0, 0), NegV(w), TS, 0, 0), q, 8)
Rest == NearV(Integrate(q, <<0, 0, 0>>, TS, m, o), q, 4)
===============================================================================
