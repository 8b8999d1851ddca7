-------------------------------- MODULE Rotation -------------------------------
(***************************************************************************)
(* Unit quaternions w, x, y, z and rotation matrices (rows one after the   *)
(* other) in fixed point, and what conversions between quaternions,        *)
(* matrices, axis and angle, and Euler angles have to return.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Fx

QMul(a, b) == <<
  Mul(a[1], b[1]) - Mul(a[2], b[2]) - Mul(a[3], b[3]) - Mul(a[4], b[4]),
  Mul(a[1], b[2]) + Mul(a[2], b[1]) + Mul(a[3], b[4]) - Mul(a[4], b[3]),
  Mul(a[1], b[3]) - Mul(a[2], b[4]) + Mul(a[3], b[1]) + Mul(a[4], b[2]),
  Mul(a[1], b[4]) + Mul(a[2], b[3]) - Mul(a[3], b[2]) + Mul(a[4], b[1])>>
Conj(q) == <<q[1], -q[2], -q[3], -q[4]>>
NegQ(q) == <<-q[1], -q[2], -q[3], -q[4]>>
IdQ == <<ONE, 0, 0, 0>>

\* Rotation of a vector by conjugation: the vector part of q v q*.
Rotate(q, v) ==
  LET t == TLCEval(QMul(QMul(q, <<0, v[1], v[2], v[3]>>), Conj(q))) IN <<t[2], t[3], t[4]>>

\* Columns of the matrix are the images of the unit vectors.
Dcm(q) ==
  LET w == q[1]
      x == q[2]
      y == q[3]
      z == q[4]
      d(a, b) == ONE - 2 * (Sq(a) + Sq(b))
      p(a, b, c, e) == 2 * (Mul(a, b) + Mul(c, e))
      m(a, b, c, e) == 2 * (Mul(a, b) - Mul(c, e))
  IN  << d(y, z), m(x, y, w, z), p(x, z, w, y),
         p(x, y, w, z), d(x, z), m(y, z, w, x),
         m(x, z, w, y), p(y, z, w, x), d(x, y) >>

M3(a, b) == TLCEval([k \in 1..9 |->
  LET i == (k - 1) \div 3
      j == ((k - 1) % 3) + 1
  IN  Mul(a[3 * i + 1], b[j]) + Mul(a[3 * i + 2], b[3 + j]) + Mul(a[3 * i + 3], b[6 + j])])
T3(a) == <<a[1], a[4], a[7], a[2], a[5], a[8], a[3], a[6], a[9]>>
MV3(a, v) == TLCEval([i \in 1..3 |-> Mul(a[3 * i - 2], v[1]) + Mul(a[3 * i - 1], v[2]) + Mul(a[3 * i], v[3])])
I3 == <<ONE, 0, 0, 0, ONE, 0, 0, 0, ONE>>
Det3(a) == Mul(a[1], Mul(a[5], a[9]) - Mul(a[6], a[8]))
           - Mul(a[2], Mul(a[4], a[9]) - Mul(a[6], a[7]))
           + Mul(a[3], Mul(a[4], a[8]) - Mul(a[5], a[7]))
IsRotation(a, tol) == NearV(M3(a, T3(a)), I3, tol) /\ Near(Det3(a), ONE, tol)

RotX(a) == LET c == Cos(a)
               s == Sin(a) IN <<ONE, 0, 0, 0, c, -s, 0, s, c>>
RotY(a) == LET c == Cos(a)
               s == Sin(a) IN <<c, 0, s, 0, ONE, 0, -s, 0, c>>
RotZ(a) == LET c == Cos(a)
               s == Sin(a) IN <<c, -s, 0, s, c, 0, 0, 0, ONE>>
FromEuler(phi, theta, psi) == M3(RotZ(psi), M3(RotY(theta), RotX(phi)))

Small3(v, lim) == \A k \in DOMAIN v : Abs(v[k]) <= lim
If(b, f) == IF b THEN {} ELSE {f}

\* ---- judgements -----------------------------------------------------------------
\* o: matrix of q, rotated vector (two forms), matrix of the conjugate, matrix of -q.
DcmFaults(q, v, o) ==
  LET tv == 8 + (4 * (Abs(v[1]) + Abs(v[2]) + Abs(v[3]))) \div 16384 IN
  IF ~Small3(o[1], 2 * ONE) THEN {"matrix"}
  ELSE If(NearV(o[1], Dcm(q), 8), "matrix")
       \cup If(IsRotation(o[1], 16), "rotation")
       \cup If(NearV(o[2], Rotate(q, v), tv), "rotated")
       \cup If(NearV(o[3], Rotate(q, v), tv), "rotated in place")
       \cup If(NearV(o[4], T3(o[1]), 4), "conjugate")
       \cup If(NearV(o[5], o[1], 4), "negative")

\* o: matrices of p*q, of p and of q.
CompFaults(p, q, o) ==
  IF \E k \in 1..3 : ~Small3(o[k], 2 * ONE) THEN {"composition"}
  ELSE If(NearV(o[1], M3(o[2], o[3]), 10), "composition")
       \cup If(NearV(o[2], Dcm(p), 8) /\ NearV(o[3], Dcm(q), 8), "matrix")

\* Sum of squares of numbers up to two in units of 2^-24, within a few of them.
SumSq24(r) == Sum([k \in 1..Len(r) |-> LET f == Abs(r[k]) IN (f \div 4096) * (f \div 4096) + (2 * (f \div 4096) * (f % 4096)) \div 4096])

\* Quaternion recovered from the matrix of q; method 0 Hughes (conjugate), 1 Chiaverini, 2 Sarabandi.
ExtractFaults(method, q, o) ==
  LET u == IF q[1] < 0 THEN NegQ(q) ELSE q
      e == IF method = 0 THEN Conj(u) ELSE u
      r == o[1]
      half == u[1] <= 70                   \* half turn: the axis is determined up to its sign
      \* components found as roots are sharp where they are not small
      tol(k) == IF method = 0 THEN (IF u[1] >= 16384 THEN 8 ELSE 16 + 1000 \div MaxI(1, Sq(u[1]))) ELSE MinI(60, 8 + 3000 \div MaxI(1, Abs(u[k])))
      alike(x) == \A k \in 1..4 : Near(r[k], x[k], IF half THEN 200 ELSE tol(k))
  IN  IF Len(r) # 4 \/ ~Small3(r, 2 * ONE) THEN {"quaternion"}
      ELSE If(r[1] >= -1, "scalar sign")
           \cup If(Near(DotFx(r, r), ONE, IF half THEN 250 ELSE IF method = 0 THEN 32 + 2000 \div MaxI(1, Sq(u[1])) ELSE 150), "unit")
           \cup If(u[1] < 32768 \/ Near(SumSq24(o[2]), 16777216, 128), "unit")
           \cup If(alike(e) \/ (half /\ alike(NegQ(e))), "quaternion")

EulerFaults(q, o) ==
  LET r == o[1]
      s == 2 * (Mul(q[1], q[3]) - Mul(q[4], q[2]))     \* sine of the pitch
  IN  IF Abs(r[1]) > PI + 2 \/ Abs(r[2]) > HALFPI + 2 \/ Abs(r[3]) > PI + 2 THEN {"range"}
      ELSE If(Near(Sin(r[2]), s, 8), "pitch")
           \cup If(Abs(s) < 65534 \/ Near(r[2], Sgn(s) * HALFPI, IF Abs(s) = ONE /\ \A k \in 1..4 : q[k] % 1024 = 0 THEN 40 ELSE 900), "vertical pitch")
           \cup If(Abs(s) > 65500 \/ NearV(FromEuler(r[1], r[2], r[3]), Dcm(q), IF Abs(s) > 60000 THEN 64 ELSE 20), "angles")

\* o: in place, returned, argument afterwards.
ExpFaults(q, o) ==
  LET v == <<q[2], q[3], q[4]>>
      n == NormFx(v)
      e == Exp(q[1])
      s == Sinc(n)
      x == <<Mul(e, Cos(n)), Mul(e, Mul(v[1], s)), Mul(e, Mul(v[2], s)), Mul(e, Mul(v[3], s))>>
      tol == IF v = <<0, 0, 0>> THEN 6 + e \div 16384 ELSE 12 + e \div 8192
  IN  If(NearV(o[1], x, tol), "in place")
      \cup If(NearV(o[2], x, tol), "returned")
      \cup If(NearV(o[3], q, 1), "argument")

\* Logarithm of the rotation by angle t about a unit axis; o: returned, in place, argument afterwards; m the matrix.
LogFaults(ax, t, m, o) ==
  LET a == MulV(ax, t)
      x == <<0, -a[3], a[2], a[3], 0, -a[1], -a[2], a[1], 0>>
      tol == IF t > 190000 THEN 160 ELSE 12
  IN  If(NearV(o[1], x, tol), "returned")
      \cup If(NearV(o[2], x, tol), "in place")
      \cup If(NearV(o[3], m, 1), "argument")

\* Interpolation between unit vectors u and v at fraction t.
\* Half the length of a vector; short ones are enlarged before squaring.
HalfLength(w) == IF \A k \in DOMAIN w : Abs(w[k]) < 8192 THEN NormFx([k \in 1..Len(w) |-> 16 * w[k]]) \div 32 ELSE NormFx(w) \div 2
Opening(u, v) == 2 * AngleOf(HalfLength(AddV(u, v)), HalfLength(SubV(u, v)))
OnTheArc(u, v, om, t) ==
  IF om < 300 THEN AddV(MulV(u, ONE - t), MulV(v, t))
  ELSE LET c == Cos(om)
           f == Div(Sin(Mul(t, om)), Sin(om))
       IN  AddV(MulV(u, Cos(Mul(t, om))), MulV(SubV(v, MulV(u, c)), f))
SlerpFaults(u, v, t, o) ==
  LET r == o[1]
      om == Opening(u, v)
      tol == IF om < HALFPI THEN 12 ELSE 12 + (8 * ONE) \div MaxI(64, Sin(om))
  IN  IF Len(r) # Len(u) \/ ~Small3(r, 2 * ONE) THEN {"arc"}
      ELSE If(Near(DotFx(r, r), ONE, 24), "unit")
           \cup If(NearV(r, OnTheArc(u, v, om, t), tol), "arc")
LerpFaults(u, v, t, o) ==
  If(Len(o[1]) = Len(u) /\ NearV(o[1], AddV(MulV(u, ONE - t), MulV(v, t)), 8 + Abs(u[1]) \div 16384), "segment")
===============================================================================
