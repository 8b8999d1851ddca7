----------------------------- MODULE MC_Containers ----------------------------
(***************************************************************************)
(* Exhaustive exploration of the container specification on a small bank   *)
(* of registers: every call of the table with every argument choice, from  *)
(* every reachable register contents.  Checked: the meaning of every call  *)
(* is defined, keeps the registers well formed and writes only what it     *)
(* names; and in every reachable state the algebraic laws that tie the     *)
(* operations together.  With Edges the transitions are printed so that    *)
(* they can be replayed into the library.                                  *)
(***************************************************************************)
EXTENDS Containers, OpTable
LOCAL INSTANCE Fx

CONSTANTS Mats, Vecs, Bytes, MSink, VSink, Dim, Vals, Groups, Edges

VARIABLES regs
Bank == Mats \cup Vecs \cup Bytes

\* Argument choices.
Choices(ch) ==
  CASE ch \in {"D", "M"} -> Mats
    [] ch \in {"E", "V"} -> Vecs
    [] ch \in {"B", "U"} -> Bytes
    [] ch = "R" -> {MSink}
    [] ch = "W" -> {VSink}
    [] ch \in {"r", "c"} -> 0..Dim
    [] ch = "n" -> (0..Dim) \cup {5}
    [] ch = "k" -> {99} \cup ((-Dim)..Dim)
    [] ch = "b" -> {0, 1}
    [] ch = "f" -> {<<0, v>> : v \in Vals} \cup {<<2, 0>>}
    [] ch = "s" -> {<<0, 0>>, <<0, 64>>}
    [] ch = "e" -> {<<0, 0>>, <<0, 64>>}
    [] ch = "t" -> {<<0, 0>>, <<0, 64>>, <<0, 96>>}
    [] OTHER -> {}

RECURSIVE ArgSets(_, _)
ArgSets(sig, k) ==
  IF k = 0 THEN {<<>>}
  ELSE {Append(s, c) : s \in ArgSets(sig, k - 1), c \in Choices(sig[k])}

RECURSIVE Pick(_, _, _, _)
Pick(sig, a, k, kinds) ==
  IF k = 0 THEN <<>>
  ELSE IF sig[k] \in kinds THEN Append(Pick(sig, a, k - 1, kinds), a[k]) ELSE Pick(sig, a, k - 1, kinds)

Call(def, a) ==
  LET n == Len(def.sig) IN
  [op |-> def.op, g |-> def.g, fn |-> def.fn, fm |-> def.fm,
   a |-> Pick(def.sig, a, n, {"D", "E", "B", "R", "W", "P", "M", "V", "U", "r", "c", "n", "k", "b", "i", "z"}),
   d |-> Pick(def.sig, a, n, {"D", "E", "B", "R", "W", "P"}),
   x |-> Pick(def.sig, a, n, {"M", "V", "U"}),
   i |-> Pick(def.sig, a, n, {"r", "c", "n", "k", "b", "i", "z"}),
   f |-> Pick(def.sig, a, n, {"f", "s", "e", "t"})]

Distinct(c) == /\ \A p, q \in 1..Len(c.d) : p # q => c.d[p] # c.d[q]
               /\ \A p \in 1..Len(c.d) : \A q \in 1..Len(c.x) : c.d[p] # c.x[q]

Calls == TLCEval({c \in UNION {{Call(def, a) : a \in ArgSets(def.sig, Len(def.sig))}
                               : def \in {t \in OpTable : t.g \in Groups /\ t.op # "u_new"}} : Distinct(c)})

\* An expected element as a concrete one, where the model stays in its value set.
Concrete(t) == IF t[1] = 5 THEN <<TRUE, Zero>>
               ELSE IF t[1] = 0 THEN <<t[2] \in Vals \cup {0}, t>>
               ELSE IF t[1] = 7 /\ t[2] % 1024 = 0 THEN <<(t[2] \div 1024) \in Vals \cup {0}, Ex(t[2] \div 1024)>>
               ELSE <<FALSE, t>>
InModel(m) == m.r <= Dim /\ m.c <= Dim /\ \A k \in 1..Len(m.e) : Concrete(m.e[k])[1]
Fixed(m) == [m EXCEPT !.e = TLCEval([k \in 1..Len(m.e) |-> Concrete(m.e[k])[2]])]

View(R) == [q \in Bank \cup {MSink, VSink} |-> IF q \in Bank THEN R[q] ELSE Uninit]

Result(c, R) ==
  LET E == Expect(c, R)
      kept == {k \in 1..Len(E.w) : E.w[k][1] \in Bank}
  IN
  IF E.ref # {} \/ E.free THEN R
  ELSE IF \E k \in kept : E.w[k][2].i /\ ~InModel(E.w[k][2]) THEN R
  ELSE [q \in DOMAIN R |->
          IF \E k \in kept : E.w[k][1] = q
          THEN LET m == E.w[CHOOSE k \in kept : E.w[k][1] = q][2] IN IF m.i THEN Fixed(m) ELSE m
          ELSE R[q]]
\* Calls whose specified result leaves the value set of the model are not taken.
Stays(c, R) ==
  LET E == Expect(c, R) IN
  E.ref # {} \/ (~E.free /\ \A k \in 1..Len(E.w) :
                   E.w[k][1] \in Bank => (E.w[k][2].i => InModel(E.w[k][2])))

\* A short name for a register contents, for printing.
RECURSIVE Digits(_, _)
Digits(e, k) == IF k = 0 THEN 0 ELSE Digits(e, k - 1) * 3 + (e[k][2] \div 64) + 1
Name(R) == LET q == CHOOSE f \in [1..Cardinality(Bank) -> Bank] : \A a, b \in 1..Cardinality(Bank) : a < b => f[a] < f[b]
           IN  TLCEval([k \in 1..Cardinality(Bank) |->
                 IF R[q[k]].i THEN (R[q[k]].r * 10 + R[q[k]].c) * 1000 + Digits(R[q[k]].e, Len(R[q[k]].e)) ELSE 0])

Init == regs = [q \in Bank \cup {MSink, VSink} |-> Uninit]
Next == \E c \in Calls :
          /\ Stays(c, regs)
          /\ regs' = Result(c, regs)
          /\ (Edges => PrintT(<<"EDGE", Name(regs), c.op, c.a, c.f, Name(regs')>>))
Spec == Init /\ [][Next]_regs

\* ---- invariants ------------------------------------------------------------------
WellFormed ==
  \A q \in Bank : LET m == regs[q] IN
    IF m.i THEN m.r \in 1..MaxDim /\ m.c \in 1..MaxDim /\ Len(m.e) = m.r * m.c /\ \A k \in 1..Len(m.e) : IsFin(m.e[k])
    ELSE m = Uninit

\* Every call has a defined meaning, writes only its destinations, and an
\* accepted call leaves them well formed.
Total ==
  \A c \in Calls :
    LET E == Expect(c, regs) IN
    /\ E.ref # {} => E.w = <<>>
    /\ \A k \in 1..Len(E.w) : \E p \in 1..Len(c.d) : c.d[p] = E.w[k][1]
    /\ \A k \in 1..Len(E.w) : E.w[k][2].i =>
         E.w[k][2].r \in 1..MaxDim /\ E.w[k][2].c \in 1..MaxDim /\ Len(E.w[k][2].e) = E.w[k][2].r * E.w[k][2].c
    \* nothing but life cycle calls is accepted on a register without dimensions
    /\ (\E k \in 1..Len(c.x) : ~regs[c.x[k]].i) => (E.ref # {} \/ c.fn \in {"isinit"})

DimM == {regs[q] : q \in {p \in Mats : regs[p].i}}
DimV == {regs[q] : q \in {p \in Vecs : regs[p].i}}

\* Laws of the structural edits.
EditLaws ==
  /\ \A m \in DimM :
       /\ Transposed(Transposed(m)) = m
       /\ \A i \in 0..(m.r - 1) : Row(m, i) = Col(Transposed(m), i)
       /\ \A i \in 0..(m.r - 1), j \in 0..(m.c - 1) :
            Diagonal(m, j - i).e[MinI(i, j) + 1] = At(m, i, j)
       /\ \A k \in (1 - m.r)..(m.c - 1) : Diagonal(Transposed(m), -k) = Diagonal(m, k)
  /\ \A m \in DimM, v \in DimV :
       /\ v.r = m.c => \A p \in 0..m.r :
            /\ WithoutRow(WithRow(m, v, p), p) = m
            /\ Row(WithRow(m, v, p), p) = v.e
       /\ v.r = m.r => \A p \in 0..m.c :
            /\ Col(WithCol(m, v, p), p) = v.e
            /\ WithCol(m, v, p) = Transposed(WithRow(Transposed(m), v, p))
\* Laws of arithmetic; the three forms of an operation mean the same.
ArithLaws ==
  /\ \A a, b \in DimM : Same(a, b) =>
       /\ Map2(a, b, AddT) = Map2(b, a, AddT)
       /\ Map2(Map2(a, b, AddT), b, SubT) = a
       /\ \A op \in {"add", "sub"} :
            LET dst == Effect(op, "dst", <<MSink>>, <<a>>, <<a, b>>, <<>>, <<>>)
                ip  == Effect(op, "ip", <<MSink>>, <<a>>, <<b>>, <<>>, <<>>)
                new == Effect(op, "new", <<MSink>>, <<Uninit>>, <<a, b>>, <<>>, <<>>)
            IN  dst = ip /\ dst = new
       /\ AllClose(a, b, Zero) = Bool(a = b)
       /\ \A s \in {0, 64} : AllClose(a, b, Ex(s)) = AllClose(b, a, Ex(s))
  /\ \A a, b \in DimM : a.c = b.r => Transposed(Product(a, b)) = Product(Transposed(b), Transposed(a))
  /\ \A a, b, c \in DimM : (a.c = b.r /\ Same(b, c)) =>
       Product(a, Map2(b, c, AddT)) = Map2(Product(a, b), Product(a, c), AddT)
  /\ \A v, w \in DimV : v.r = w.r =>
       SumProd(v.e, w.e, Plus(v.r)) = Product(Transposed(v), w).e[1]
===============================================================================
