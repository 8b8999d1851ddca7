------------------------------- MODULE MC_Interp -------------------------------
(***************************************************************************)
(* Travelling from one unit vector to another in eighths of the way.  The  *)
(* position and its direction of travel are turned by the same small angle  *)
(* at every step, which knows nothing of interpolation weights; at every    *)
(* stop the judgements of spherical and linear interpolation accept the     *)
(* position for its fraction and for no other.  Every stop is printed as a  *)
(* call to be replayed.                                                     *)
(***************************************************************************)
EXTENDS Rotation, FiniteSets

CONSTANT STOPS

Axis(n, i, s) == [k \in 1..n |-> IF k = i THEN s * ONE ELSE 0]
Pm == {-1, 1}
AxesOf(n) == {Axis(n, i, s) : i \in 1..n, s \in Pm}
Halves == {<<a * HALF, b * HALF, c * HALF, d * HALF>> : a \in Pm, b \in Pm, c \in Pm, d \in Pm}
UnitsOf(n) == IF n = 4 THEN AxesOf(4) \cup Halves ELSE AxesOf(n)

VARIABLES n,      \* size, 0 before anything is chosen
          u, v,   \* ends
          k,      \* stops made
          r, d    \* position and direction of travel
vars == <<n, u, v, k, r, d>>

Omega == AngleOf(NormFx(AddV(u, v)) \div 2, NormFx(SubV(u, v)) \div 2) * 2
Between(a, b, t) ==
  LET om == AngleOf(NormFx(AddV(a, b)) \div 2, NormFx(SubV(a, b)) \div 2) * 2
      s == Sin(om)
  IN  IF a = b THEN a
      ELSE TLCEval([j \in DOMAIN a |-> Div(Mul(Sin(om - Mul(t, om)), a[j]) + Mul(Sin(Mul(t, om)), b[j]), s)])
Along(j) == j * (ONE \div STOPS)

RECURSIVE Digits(_, _)
Digits(x, j) == IF j = 0 THEN 0 ELSE Digits(x, j - 1) * 5 + (x[j] \div HALF) + 2
Code(x) == Digits(x, Len(x))
Tok(x) == <<0, x \div 1024>>
Toks(x) == [j \in DOMAIN x |-> Tok(x[j])]
Here == IF n = 0 THEN <<0, 0, 0, 0>> ELSE <<n, Code(u), Code(v), k>>
Emit(op, m, a, b, t, dst) == PrintT(<<"EDGE", Here, op, <<m>>, <<Tok(t)>> \o Toks(a) \o Toks(b), dst>>)

Init == n = 0 /\ u = <<>> /\ v = <<>> /\ k = 0 /\ r = <<>> /\ d = <<>>
Choose ==
  /\ n = 0
  /\ \E m \in 1..4 : \E a \in UnitsOf(m), b \in UnitsOf(m) :
       /\ \E j \in 1..m : a[j] # -b[j]
       /\ n' = m /\ u' = a /\ v' = b /\ k' = 0 /\ r' = a
       \* at right angles to the start, towards the end
       /\ d' = IF a = b THEN SubV(a, a) ELSE NormalizeFx(SubV(b, MulV(a, DotFx(a, b))))
       /\ Emit("slerp", m, a, b, 0, <<m, Code(a), Code(b), 0>>)
Advance ==
  /\ n > 0 /\ k < STOPS
  /\ k' = k + 1
  /\ LET c == Cos(Omega \div STOPS)
         s == Sin(Omega \div STOPS)
     IN  r' = AddV(MulV(r, c), MulV(d, s)) /\ d' = SubV(MulV(d, c), MulV(r, s))
  /\ Emit("slerp", n, u, v, Along(k + 1), <<n, Code(u), Code(v), k + 1>>)
  /\ UNCHANGED <<n, u, v>>
Straight ==
  /\ n > 0
  /\ Emit("lerp", n, u, v, Along(k), Here)
  /\ UNCHANGED vars
Next == Choose \/ Advance \/ Straight
Spec == Init /\ [][Next]_vars

T == Along(k)
OnUnit == n > 0 => Near(DotFx(r, r), ONE, 48)  \* a few units are lost at every step
OnArc == n > 0 => NearV(r, Between(u, v, T), 40)
Ends == n > 0 => (k = 0 => r = u) /\ (k = STOPS => NearV(r, v, 40))
Reversed == n > 0 => NearV(Between(u, v, T), Between(v, u, ONE - T), 8)
Halved == n > 0 /\ k \in 2..STOPS /\ k % 2 = 0 => NearV(Between(u, Between(u, v, T), HALF), Between(u, v, T \div 2), 32)
\* The judgement takes the position for its own fraction only.
Judge ==
  n > 0 =>
    /\ SlerpFaults(u, v, T, <<r>>) = {}
    /\ u # v => \A j \in (0..STOPS) \ {k} : SlerpFaults(u, v, Along(j), <<r>>) # {}
    /\ u # v /\ k \in 1..(STOPS - 1) => SlerpFaults(u, v, T, <<AddV(MulV(u, ONE - T), MulV(v, T))>>) # {}
JudgeStraight ==
  n > 0 =>
    LET x == AddV(MulV(u, ONE - T), MulV(v, T)) IN
    /\ LerpFaults(u, v, T, <<x>>) = {}
    /\ u # v => \A j \in (0..STOPS) \ {k} : LerpFaults(u, v, Along(j), <<x>>) # {}
===============================================================================
