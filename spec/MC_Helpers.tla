------------------------------- MODULE MC_Helpers -------------------------------
(***************************************************************************)
(* Every triple of small integers and of neighbouring floats, as arguments *)
(* of the scalar helpers.  The definitions used to judge the helpers obey  *)
(* the laws of an order; every call is printed for the library.            *)
(***************************************************************************)
EXTENDS Scalars

CONSTANT Bound

VARIABLE v
Range == -Bound..Bound
Emit(op, i, t, dst) == PrintT(<<"EDGE", v, op, i, t, dst>>)
F(n) == Ex(16 * n)          \* quarters

Ask ==
  /\ v' = v
  /\ \A op \in {"u_irange", "u_iclip", "u_drange", "u_dclip"} : Emit(op, v, <<>>, v)
  /\ \A op \in {"u_imin", "u_imax", "u_dmin", "u_dmax"} : Emit(op, <<v[1], v[2]>>, <<>>, v)
  /\ \A op \in {"u_isign", "u_dsign"} : Emit(op, <<v[1]>>, <<>>, v)
  /\ \A op \in {"u_frange", "u_fclip", "u_close"} : Emit(op, <<0>>, <<F(v[1]), F(v[2]), F(v[3])>>, v)
  /\ \A op \in {"u_fmin", "u_fmax"} : Emit(op, <<0>>, <<F(v[1]), F(v[2])>>, v)
  /\ Emit("u_fsign", <<0>>, <<F(v[1])>>, v)
Move == \E k \in 1..3, x \in Range : v' = [v EXCEPT ![k] = x] /\ Emit("u_irange", v', <<>>, v')

Init == v = <<0, 0, 0>>
Next == Ask \/ Move
Spec == Init /\ [][Next]_v

\* ---- laws -----------------------------------------------------------------------------
a == v[1]
b == v[2]
c == v[3]
Bounds == b <= c => Within(Clamp(a, b, c), b, c) /\ (Within(a, b, c) <=> Clamp(a, b, c) = a)
Extremes == MinI(a, b) + MaxI(a, b) = a + b /\ MinI(a, b) <= MaxI(a, b) /\ (b <= c => Clamp(a, b, c) = MinI(MaxI(a, b), c))
Signs == Sgn(-a) = -Sgn(a) /\ a = Sgn(a) * Abs(a) /\ Sgn(a * b) = Sgn(a) * Sgn(b)
Closeness == /\ Close(F(a), F(b), F(c)) = Close(F(b), F(a), F(c))
             /\ Close(F(a), F(b), F(c)) = {Abs(a - b) <= c}
             /\ (c >= 0 <=> Close(F(a), F(a), F(c)) = {TRUE})
===============================================================================
