-------------------------------- MODULE MC_Quat --------------------------------
(***************************************************************************)
(* Two quaternion registers that hold nothing, a vector that is no          *)
(* quaternion, zero, or any of the 24 Hurwitz units, under every quaternion *)
(* call.  The laws of Hamilton's algebra are checked of the operators that  *)
(* judge the library, without tolerance; every transition is printed as a   *)
(* call to be replayed.                                                     *)
(***************************************************************************)
EXTENDS Containers, OpTable
LOCAL INSTANCE Fx

VARIABLE regs
Regs == {5, 6}
VSink == 10
MSink == 4

Pm == {-1, 1}
T(n) == <<0, n>>
Quat(a, b, c, d) == Vec(<<T(a), T(b), T(c), T(d)>>)
Null == Quat(0, 0, 0, 0)
Units == {Quat(64 * s, 0, 0, 0) : s \in Pm} \cup {Quat(0, 64 * s, 0, 0) : s \in Pm}
         \cup {Quat(0, 0, 64 * s, 0) : s \in Pm} \cup {Quat(0, 0, 0, 64 * s) : s \in Pm}
         \cup {Quat(32 * a, 32 * b, 32 * c, 32 * d) : a \in Pm, b \in Pm, c \in Pm, d \in Pm}
One == Quat(64, 0, 0, 0)
Quats == Units \cup {Null}
Short == Vec(<<T(0), T(0), T(0)>>)
Neg(q) == Map(q, NegT)

\* Results of exact arithmetic as tokens of 1/64.
Exactly(t) == IF t[1] = 7 /\ t[2] % 1024 = 0 THEN T(t[2] \div 1024) ELSE IF t[1] = 5 THEN T(0) ELSE t
Settled(m) == IF m.i THEN [m EXCEPT !.e = TLCEval([k \in 1..Len(m.e) |-> Exactly(m.e[k])])] ELSE m

Def(op) == CHOOSE t \in OpTable : t.op = op
Call(op, d, x, i, f, a) ==
  LET t == Def(op) IN [op |-> op, g |-> t.g, fn |-> t.fn, fm |-> t.fm, a |-> a, d |-> d, x |-> x, i |-> i, f |-> f]

Other(r) == 11 - r
Unary == {"q_isq", "q_isreal", "q_ispure", "q_isversor", "q_isident", "q_getw", "q_getx", "q_gety", "q_getz"}
Calls == TLCEval(
  UNION {
    {Call(op, <<>>, <<r>>, <<>>, <<>>, <<r>>) : op \in Unary, r \in Regs},
    {Call(op, <<VSink>>, <<r>>, <<>>, <<>>, <<VSink, r>>) : op \in {"q_vec", "q_conj_new"}, r \in Regs},
    {Call("q_dcm", <<MSink>>, <<r>>, <<>>, <<>>, <<MSink, r>>) : r \in Regs},
    {Call(op, <<r>>, <<>>, <<>>, <<>>, <<r>>) : op \in {"q_conj", "q_inv", "q_ident"}, r \in Regs},
    {Call(op, <<r>>, <<>>, <<>>, <<T(v)>>, <<r>>) : op \in {"q_setw", "q_setx", "q_sety", "q_setz"}, r \in Regs, v \in {-64, 0, 32, 64}},
    {Call("q_fill", <<r>>, <<>>, <<>>, q.e, <<r>>) : r \in Regs, q \in Quats},
    {Call("q_mul", <<r>>, <<Other(r), Other(r)>>, <<>>, <<>>, <<r, Other(r), Other(r)>>) : r \in Regs},
    {Call("q_mul_new", <<VSink>>, <<r, s>>, <<>>, <<>>, <<VSink, r, s>>) : r \in Regs, s \in Regs},
    {Call("q_rot", <<VSink>>, <<r, s>>, <<>>, <<>>, <<VSink, r, s>>) : r \in Regs, s \in Regs},
    {Call("q_rot_ip", <<r>>, <<Other(r)>>, <<>>, <<>>, <<Other(r), r>>) : r \in Regs},
    {Call("v_new", <<r>>, <<>>, <<>>, <<>>, <<r>>) : r \in Regs},
    {Call("v_init", <<r>>, <<>>, <<n>>, <<>>, <<r, n>>) : r \in Regs, n \in {3, 4}}})

Result(c) ==
  LET E == Expect(c, regs) IN
  IF E.ref # {} THEN regs
  ELSE [q \in DOMAIN regs |->
          IF q \in Regs /\ \E k \in 1..Len(E.w) : E.w[k][1] = q
          THEN Settled(E.w[CHOOSE k \in 1..Len(E.w) : E.w[k][1] = q][2])
          ELSE regs[q]]

Code(m) == IF ~m.i THEN 0 ELSE IF m.r = 3 THEN 1
           ELSE 10 + (((m.e[1][2] \div 32 + 2) * 5 + m.e[2][2] \div 32 + 2) * 5 + m.e[3][2] \div 32 + 2) * 5 + m.e[4][2] \div 32 + 2
Name(R) == <<Code(R[5]), Code(R[6])>>

Contents == Quats \cup {Uninit, Short}
Init == regs = [q \in {4, 5, 6, 10} |-> Uninit]
Next == \E c \in Calls :
          LET R == Result(c) IN
          /\ \A q \in Regs : R[q] \in Contents
          /\ regs' = R
          /\ PrintT(<<"EDGE", Name(regs), c.op, c.a, c.f, Name(R)>>)
Spec == Init /\ [][Next]_regs

\* ---- laws ------------------------------------------------------------------------
P == regs[5]
Q == regs[6]
IsQ(m) == m.i /\ m.r = 4
Prod(a, b) == Settled(Hamilton(a, b))
WellFormed == \A q \in Regs : regs[q] \in Contents
Ring ==
  IsQ(P) /\ IsQ(Q) =>
    /\ Prod(P, Q) \in Quats
    /\ Prod(One, P) = P /\ Prod(P, One) = P
    /\ \A g \in Units : Prod(Prod(P, Q), g) = Prod(P, Prod(Q, g))
    /\ Prod(Neg(P), Q) = Neg(Prod(P, Q))
Conjugates ==
  IsQ(P) /\ IsQ(Q) =>
    /\ Conj(Prod(P, Q)) = Prod(Conj(Q), Conj(P))
    /\ Conj(Conj(P)) = P
    /\ P \in Units => Prod(P, Conj(P)) = One
Inverses ==
  IsQ(P) => LET v == InverseQ(P)
                c == IF P = Null THEN Null ELSE Conj(P)
            IN  /\ \A k \in 1..4 : MatchT(v.e[k], c.e[k])
                \* no other element is taken for the inverse
                /\ \A g \in Quats : (\A k \in 1..4 : MatchT(v.e[k], g.e[k])) => g = c
Matrices ==
  (P \in Units /\ Q \in Units) =>
    /\ Settled(Product(Settled(Dcm(P)), Settled(Dcm(Q)))) = Settled(Dcm(Prod(P, Q)))
    /\ Settled(Dcm(Conj(P))) = Transposed(Settled(Dcm(P)))
Tests ==
  IsQ(P) =>
    LET R(fn) == Effect(fn, "get", <<>>, <<>>, <<P>>, <<>>, <<>>).r[1] IN
    /\ R("isversor") = Bool(P # Null)
    /\ R("isident") = Bool(P = One)
    /\ R("isreal") = Bool(P \in {One, Neg(One), Null})
    /\ R("ispure") = Bool(P.e[1] = T(0))
\* The order of the factors matters to the judgement wherever it matters to the algebra.
Ordered ==
  IsQ(P) /\ IsQ(Q) =>
    LET E == Hamilton(P, Q)
        o == Prod(Q, P)
    IN  (\A k \in 1..4 : MatchT(E.e[k], o.e[k])) <=> Prod(P, Q) = o
===============================================================================
