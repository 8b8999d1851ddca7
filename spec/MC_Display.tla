------------------------------- MODULE MC_Display -------------------------------
(***************************************************************************)
(* A vector of up to two elements over values around the roundings, and a  *)
(* matrix of up to two by two, under dimensioning, writing and displaying. *)
(* Every transition is printed as a call for the library.  Of the reading  *)
(* of a display it is checked that every number has one rounding (two half *)
(* way between), in the order of the numbers, and that different contents  *)
(* can be told apart when they differ by more than a rounding.             *)
(***************************************************************************)
EXTENDS Display, Integers, Sequences, FiniteSets, TLC
LOCAL INSTANCE Fx

VARIABLE s        \* <<kind, rows, columns, elements in 64ths (4)>>; kind 0 none, 1 vector, 2 matrix
None == <<0, 0, 0, 0, 0, 0, 0>>

Fine == {-64064, -96, -64, -60, -4, -1, 0, 1, 4, 12, 31, 63, 65, 8191, 16777215}
Coarse == {-65, 0, 4, 640}
V == 5
M == 0
Emit(op, i, t, dst) == PrintT(<<"EDGE", s, op, i, t, dst>>)
Take(op, i, t, dst) == s' = dst /\ Emit(op, i, t, dst)

Next ==
  \/ /\ s[1] = 0
     /\ \/ \E n \in 1..2 : Take("v_init", <<V, n>>, <<>>, <<1, n, 1, 0, 0, 0, 0>>)
        \/ \E r \in 1..2, c \in 1..2 : Take("m_init", <<M, r, c>>, <<>>, <<2, r, c, 0, 0, 0, 0>>)
        \/ Take("v_print", <<V>>, <<>>, s)
        \/ Take("m_print", <<M>>, <<>>, s)
  \/ /\ s[1] = 1
     /\ \/ \E k \in 0..(s[2] - 1), n \in Fine : Take("v_set", <<V, k>>, <<Ex(n)>>, [s EXCEPT ![4 + k] = n])
        \/ Take("v_print", <<V>>, <<>>, s)
        \/ Take("v_new", <<V>>, <<>>, None)
  \/ /\ s[1] = 2
     /\ \/ \E i \in 0..(s[2] - 1), j \in 0..(s[3] - 1), n \in Coarse :
             Take("m_set", <<M, i, j>>, <<Ex(n)>>, [s EXCEPT ![4 + i * s[3] + j] = n])
        \/ Take("m_print", <<M>>, <<>>, s)
        \/ Take("m_new", <<M>>, <<>>, None)

Init == s = None
Spec == Init /\ [][Next]_s

\* ---- readings --------------------------------------------------------------------
Words(n) == LET m == (n * 125) \div 8 IN {p \in (m - 2)..(m + 2) : Word(Ex(n), <<p, 0>>)}
Roundings ==
  \A n \in -700..700 :
    /\ Cardinality(Words(n)) = (IF (n * 125) % 8 = 4 THEN 2 ELSE 1)
    /\ \A p \in Words(n), q \in Words(n + 1) : p < q
    /\ \A p \in Words(n) : -p \in Words(-n)
ASSUME Roundings
Elements == SubSeq(s, 4, 3 + s[2] * s[3])
Display == TLCEval([i \in 1..s[2] |-> [j \in 1..s[3] |-> <<CHOOSE p \in Words(Elements[(i - 1) * s[3] + j]) : TRUE, 0>>]])
Tokens(e) == TLCEval([k \in 1..Len(e) |-> Ex(e[k])])
\* The display of the contents is a display of them, and of no contents with another element or shape.
Readable ==
  s[1] # 0 =>
    /\ Shown(s[2], s[3], Tokens(Elements), Display)
    /\ \A k \in 1..Len(Elements), n \in Coarse : n # Elements[k] => ~Shown(s[2], s[3], Tokens([Elements EXCEPT ![k] = n]), Display)
    /\ s[2] # s[3] => ~Shown(s[3], s[2], Tokens(Elements), Display)
===============================================================================
