------------------------------ MODULE MC_Rotation ------------------------------
(***************************************************************************)
(* The group of the 24 Hurwitz unit quaternions, reached by multiplying    *)
(* with its elements.  The operators of Rotation are exact on it, so the   *)
(* laws of rotations are checked without tolerance; every product and      *)
(* every element is printed as a call to be replayed into the library.     *)
(***************************************************************************)
EXTENDS Rotation, FiniteSets

VARIABLE q        \* fixed point, components multiples of one half

Pm == {-1, 1}
Units == {<<s * ONE, 0, 0, 0>> : s \in Pm} \cup {<<0, s * ONE, 0, 0>> : s \in Pm}
         \cup {<<0, 0, s * ONE, 0>> : s \in Pm} \cup {<<0, 0, 0, s * ONE>> : s \in Pm}
         \cup {<<a * HALF, b * HALF, c * HALF, d * HALF>> : a \in Pm, b \in Pm, c \in Pm, d \in Pm}

Basis == {<<ONE, 0, 0>>, <<0, ONE, 0>>, <<0, 0, ONE>>, <<ONE, 2 * ONE, -3 * ONE>>}

\* Exact tokens in 1/64.
Toks(v) == [k \in DOMAIN v |-> <<0, v[k] \div 1024>>]
Name(x) == [k \in 1..4 |-> x[k] \div HALF]
Emit(op, i, v, dst) == PrintT(<<"EDGE", Name(q), op, i, Toks(v), Name(dst)>>)

Init == q = IdQ

Multiply(g) ==
  /\ q' = QMul(q, g)
  /\ Emit("comp", <<>>, q \o g, q')

Query ==
  /\ \A v \in Basis : Emit("dcm", <<>>, q \o v, q)
  /\ \A m \in 0..2 : Emit("extract", <<m, -1000>>, q, q)
  /\ Emit("extract", <<2, 16>>, q, q)
  /\ Emit("extract", <<2, -16>>, q, q)
  /\ Emit("euler", <<>>, q, q)
  /\ UNCHANGED q

Next == Query \/ \E g \in Units : Multiply(g)
Spec == Init /\ [][Next]_q

Closed == q \in Units
Proper == IsRotation(Dcm(q), 0)
Homomorphism == \A g \in Units : Dcm(QMul(q, g)) = M3(Dcm(q), Dcm(g))
Inverse == Dcm(Conj(q)) = T3(Dcm(q)) /\ QMul(q, Conj(q)) = IdQ
TwoToOne == {g \in Units : Dcm(g) = Dcm(q)} = {q, NegQ(q)}
Conjugation == \A v \in Basis : MV3(Dcm(q), v) = Rotate(q, v)
Lengths == \A v \in Basis : DotFx(Rotate(q, v), Rotate(q, v)) = DotFx(v, v)

\* The same at scale 2^24.
Fine(g) == TLCEval([k \in 1..4 |-> 256 * g[k]])

\* The judgements accept the exact answer and no other element of the group.
Canon == IF q[1] < 0 THEN NegQ(q) ELSE q
JudgeDcm == \A g \in Units :
  LET v == <<ONE, 2 * ONE, -3 * ONE>>
      o == <<Dcm(g), Rotate(g, v), Rotate(g, v), T3(Dcm(g)), Dcm(g)>>
  IN  (DcmFaults(q, v, o) = {}) <=> g \in {q, NegQ(q)}
JudgeExtract == \A g \in Units :
  /\ (ExtractFaults(1, q, <<g, Fine(g)>>) = {}) <=> (g = Canon \/ (q[1] = 0 /\ g = NegQ(q)))
  /\ (ExtractFaults(0, q, <<Conj(g), Fine(g)>>) = {}) <=> (g = Canon \/ (q[1] = 0 /\ g = NegQ(q)))
\* Euler angles in multiples of a quarter turn describe every element with its pitch.
Quarter == {-PI, -HALFPI, 0, HALFPI, PI}
JudgeEuler ==
  \E a \in Quarter, b \in {-HALFPI, 0, HALFPI}, c \in Quarter :
     EulerFaults(q, <<<<a, b, c>>>>) = {} /\ NearV(FromEuler(a, b, c), Dcm(q), 16)
===============================================================================
