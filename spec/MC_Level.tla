-------------------------------- MODULE MC_Level --------------------------------
(***************************************************************************)
(* AQUA without gyrometer on the attitudes of the 24 Hurwitz quaternions,  *)
(* where acceleration and field are exact.  From every attitude a sample   *)
(* of every other one is taken; the judgement must accept the attitude the *)
(* sample was made from, up to sign, and no other of the group.            *)
(***************************************************************************)
EXTENDS Filters

VARIABLE q

Pm == {-1, 1}
Units == {<<s * ONE, 0, 0, 0>> : s \in Pm} \cup {<<0, s * ONE, 0, 0>> : s \in Pm}
         \cup {<<0, 0, s * ONE, 0>> : s \in Pm} \cup {<<0, 0, 0, s * ONE>> : s \in Pm}
         \cup {<<a * HALF, b * HALF, c * HALF, d * HALF>> : a \in Pm, b \in Pm, c \in Pm, d \in Pm}
\* one of each pair q, -q
Half == {x \in Units : \E k \in 1..4 : x[k] > 0 /\ \A j \in 1..(k - 1) : x[j] = 0}

\* Field in the global frame: towards north, above, on and below the horizon.
Dips == {<<20 * ONE, 0, -(40 * ONE)>>, <<20 * ONE, 0, 0>>, <<3 * ONE, 0, 5 * ONE>>}
Sizes == {ONE, 10 * ONE}
\* Signed permutations: exact for every magnitude.
Seen(x, v) == TLCEval([r \in 1..3 |-> Sum([c \in 1..3 |-> (Dcm(x)[3 * (r - 1) + c] \div ONE) * v[c]])])
Acc(x, size) == Seen(x, <<0, 0, -size>>)

Toks(v) == [k \in DOMAIN v |-> <<0, v[k] \div 1024>>]
Name(x) == [k \in 1..4 |-> x[k] \div HALF]
Init == q = <<ONE, 0, 0, 0>>
Next == \E x \in Half, d \in Dips, size \in Sizes :
          /\ q' = x
          /\ PrintT(<<"EDGE", Name(q), "aq_upd", <<0>>, Toks(<<0, 0, 0>> \o Acc(x, size) \o Seen(x, d)), Name(x)>>)
Spec == Init /\ [][Next]_q

Judged == \A x \in Half, d \in Dips :
            Explains(x, Dir(Acc(q, ONE)), Dir(Seen(q, d)), 40) <=> x = q
Either == \A d \in Dips : Explains(NegQ(q), Dir(Acc(q, ONE)), Dir(Seen(q, d)), 40)
===============================================================================
