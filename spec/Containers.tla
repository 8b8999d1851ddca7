------------------------------ MODULE Containers ------------------------------
(***************************************************************************)
(* Meaning of every matrix, vector and quaternion call over a bank of      *)
(* registers.  A register is [i, r, c, e]: dimensioned or not, rows,       *)
(* columns, elements in row-major order (tokens, see Tok).                 *)
(*                                                                         *)
(* Expect(ev, R) is what the library must do when call ev is made with     *)
(* register contents R:                                                    *)
(*   ref  the set of errors of which one must be reported because a        *)
(*        precondition on state, shape, index or parameter fails           *)
(*   un   the failing precondition is "operand has no dimensions"          *)
(*   w    registers written and their new contents (expected tokens)       *)
(*   r    returned scalars (expected tokens)                               *)
(*   free the outcome is not specified here, only its side conditions      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Tok, Display
LOCAL INSTANCE Fx

MaxDim == 4
Uninit == [i |-> FALSE, r |-> 0, c |-> 0, e |-> <<>>]

UninitErrs == {"NotInit", "RowsNumberNull", "ColsNumberNull", "InvalidSize",
               "InvalidDiagonalLength", "NotSameSize", "InvalidRow", "InvalidCol"}
NumErrs == {"Nan", "Inf"}

\* ---- containers -----------------------------------------------------------
At(m, i, j) == m.e[i * m.c + j + 1]
El(v, i) == v.e[i + 1]
Mk(r, c, F(_, _)) ==
  [i |-> TRUE, r |-> r, c |-> c,
   e |-> TLCEval([k \in 1..(r * c) |-> F((k - 1) \div c, (k - 1) % c)])]
MkV(n, F(_)) == [i |-> TRUE, r |-> n, c |-> 1, e |-> TLCEval([k \in 1..n |-> F(k - 1)])]
Map(m, F(_)) == [m EXCEPT !.e = TLCEval([k \in 1..Len(m.e) |-> F(m.e[k])])]
Map2(a, b, F(_, _)) == [a EXCEPT !.e = TLCEval([k \in 1..Len(a.e) |-> F(a.e[k], b.e[k])])]
Same(a, b) == a.r = b.r /\ a.c = b.c
Square(m) == m.r = m.c
Row(m, i) == TLCEval([k \in 1..m.c |-> At(m, i, k - 1)])
Col(m, j) == TLCEval([k \in 1..m.r |-> At(m, k - 1, j)])
Blank(r, c, t) == Mk(r, c, LAMBDA i, j : t)
Vec(s) == [i |-> TRUE, r |-> Len(s), c |-> 1, e |-> s]

Transposed(m) == Mk(m.c, m.r, LAMBDA i, j : At(m, j, i))
WithRow(m, v, p) ==
  Mk(m.r + 1, m.c, LAMBDA i, j : IF i < p THEN At(m, i, j) ELSE IF i = p THEN El(v, j) ELSE At(m, i - 1, j))
WithCol(m, v, p) ==
  Mk(m.r, m.c + 1, LAMBDA i, j : IF j < p THEN At(m, i, j) ELSE IF j = p THEN El(v, i) ELSE At(m, i, j - 1))
WithoutRow(m, p) == Mk(m.r - 1, m.c, LAMBDA i, j : IF i < p THEN At(m, i, j) ELSE At(m, i + 1, j))
DiagLen(m, k) == IF k >= 0 THEN MinI(m.r, m.c - k) ELSE MinI(m.r + k, m.c)
Diagonal(m, k) ==
  MkV(DiagLen(m, k), LAMBDA i : IF k >= 0 THEN At(m, i, i + k) ELSE At(m, i - k, i))
Product(a, b) ==
  Mk(a.r, b.c, LAMBDA i, j : SumProd(Row(a, i), Col(b, j), Plus(a.c)))

\* ---- results ----------------------------------------------------------------
Okay(w, r) == [ref |-> {}, un |-> FALSE, w |-> w, r |-> r, free |-> FALSE]
Refuse(errs) == [ref |-> errs, un |-> FALSE, w |-> <<>>, r |-> <<>>, free |-> FALSE]
RefuseUn(errs) == [ref |-> errs, un |-> TRUE, w |-> <<>>, r |-> <<>>, free |-> FALSE]
Free(w) == [ref |-> {}, un |-> FALSE, w |-> w, r |-> <<>>, free |-> TRUE]

DimErrs(rows, cols) ==
  (IF rows > MaxDim THEN {"RowsNumberOverflow"} ELSE IF rows = 0 THEN {"RowsNumberNull"} ELSE {}) \cup
  (IF cols > MaxDim THEN {"ColsNumberOverflow"} ELSE IF cols = 0 THEN {"ColsNumberNull"} ELSE {})

When(c, err) == IF c THEN {err} ELSE {}

\* All shape and index preconditions that fail (operands are dimensioned).
\* d: destination registers, x: operand registers, n: integer arguments.
Pre(fn, fm, d, x, n, f) ==
  CASE fn = "set" ->
         When(~IsFin(f[1]), "Nan") \cup When(~IsFin(f[1]), "Inf")
           \cup When(n[1] >= d[1].r, "InvalidRow")
           \cup When(Len(n) = 2 /\ n[Len(n)] >= d[1].c, "InvalidCol")
    [] fn = "setb" -> When(n[1] >= d[1].r, "InvalidRow")
    [] fn = "get" ->
         When(n[1] >= x[1].r, "InvalidRow") \cup When(Len(n) = 2 /\ n[Len(n)] >= x[1].c, "InvalidCol")
    [] fn = "ident" -> When(~Square(d[1]), "NotSquare")
    [] fn = "copy" -> When(~Same(d[1], x[1]), "NotSameSize")
    [] fn = "setrow" -> When(d[1].c # x[1].r, "InvalidSize") \cup When(n[1] >= d[1].r, "InvalidRow")
    [] fn = "setcol" -> When(d[1].r # x[1].r, "InvalidSize") \cup When(n[1] >= d[1].c, "InvalidCol")
    [] fn = "getrow" -> When(x[1].c # d[1].r, "InvalidSize") \cup When(n[1] >= x[1].r, "InvalidRow")
    [] fn = "getcol" -> When(x[1].r # d[1].r, "InvalidSize") \cup When(n[1] >= x[1].c, "InvalidCol")
    [] fn = "rowvec" -> When(n[1] >= x[1].r, "InvalidRow")
    [] fn = "colvec" -> When(n[1] >= x[1].c, "InvalidCol")
    [] fn = "addrow" ->
         When(d[1].r = MaxDim, "RowsNumberOverflow") \cup When(n[1] > d[1].r, "InvalidRow")
           \cup When(x[1].r # d[1].c, "InvalidSize")
    [] fn = "addcol" ->
         When(d[1].c = MaxDim, "ColsNumberOverflow") \cup When(n[1] > d[1].c, "InvalidCol")
           \cup When(x[1].r # d[1].r, "InvalidSize")
    [] fn = "delrow" -> When(n[1] >= d[1].r, "InvalidRow") \cup When(d[1].r = 1, "RowsNumberNull")
    [] fn = "diag" -> When(DiagLen(x[1], IF n[1] = 99 THEN 0 ELSE n[1]) <= 0, "InvalidDiagonalLength")
    [] fn \in {"add", "sub"} /\ fm = "dst" ->
         When(~Same(d[1], x[1]) \/ ~Same(d[1], x[2]), "NotSameSize")
    [] fn \in {"add", "sub"} /\ fm = "ip" -> When(~Same(d[1], x[1]), "NotSameSize")
    [] fn \in {"add", "sub"} /\ fm = "new" -> When(~Same(x[1], x[2]), "NotSameSize")
    [] fn \in {"adds", "subs", "muls"} /\ fm = "dst" -> When(~Same(d[1], x[1]), "NotSameSize")
    [] fn = "mul" /\ fm = "dst" ->
         When(x[1].c # x[2].r \/ d[1].r # x[1].r \/ d[1].c # x[2].c, "InvalidSize")
    [] fn = "mul" /\ fm = "new" -> When(x[1].c # x[2].r, "InvalidSize")
    [] fn = "dot" -> When(~Same(x[1], x[2]), "NotSameSize")
    [] fn = "trace" -> When(~Square(x[1]), "NotSquare")
    [] fn \in {"lerp", "slerp"} ->
         When(~IsFin(f[1]) \/ Negative(f[1]) \/ AboveOne(f[1]), "InvalidAlpha")
           \cup When(~Same(d[1], x[1]) \/ ~Same(d[1], x[2]), "NotSameSize")
    [] fn \in {"isreal", "ispure", "isversor", "isident", "getq0", "getq1", "getq2", "getq3",
               "vecpart", "dcm", "euler"} -> When(x[1].r # 4, "InvalidSize")
    [] fn \in {"conj", "qexp"} /\ fm = "new" -> When(x[1].r # 4, "InvalidSize")
    [] fn \in {"setq0", "setq1", "setq2", "setq3", "fillq", "fillid", "qinv"} -> When(d[1].r # 4, "InvalidSize")
    [] fn \in {"conj", "qexp"} /\ fm = "ip" -> When(d[1].r # 4, "InvalidSize")
    [] fn = "qmul" /\ fm = "dst" -> When(d[1].r # 4 \/ x[1].r # 4 \/ x[2].r # 4, "InvalidSize")
    [] fn = "qmul" /\ fm = "new" -> When(x[1].r # 4 \/ x[2].r # 4, "InvalidSize")
    [] fn = "rot" /\ fm = "new" -> When(x[1].r # 4 \/ x[2].r # 3, "InvalidSize")
    [] fn = "rot" /\ fm = "ip" -> When(x[1].r # 4 \/ d[1].r # 3, "InvalidSize")
    [] fn = "todcm" -> When(d[1].r # 4, "InvalidSize")
    [] fn = "det" -> When(~Square(x[1]), "NotSquare")
    [] fn = "inv" -> When(~Square(d[1]), "NotSquare")
    [] fn = "solve" -> When(~Square(x[1]), "NotSquare")
    [] fn = "eigen" -> When(~Square(x[1]), "NotSquare")
    \* the second matrix may be unsuitable besides
    [] fn = "dlyap" -> LET bad == When(~Square(x[1]), "NotSquare") \cup When(~Same(x[1], x[2]), "NotSameSize")
                       IN  IF bad = {} THEN {} ELSE bad \cup {"NotSymetric", "NotPositiveDefinite", "Singular"} \cup NumErrs
    [] fn = "pdpred" -> When(~Square(x[1]), "NotSymetric")
    [] OTHER -> {}

\* ---- comparison within a tolerance -------------------------------------------
\* "T", "F" or "?" when the observation is too coarse to decide.
CloseT(a, b, dev) ==
  IF ~IsFin(dev) THEN "?"
  ELSE IF IsEx(a) /\ IsEx(b) /\ IsEx(dev)
  THEN IF Abs(a[2] - b[2]) <= dev[2] THEN "T" ELSE "F"
  ELSE IF a = b /\ FxOf(dev) > 1 THEN "T"
  ELSE IF Medium(a) /\ Medium(b) /\ Medium(dev)
  THEN LET q == Abs(FxOf(a) - FxOf(b)) IN
       IF q + 3 + (MaxI(Abs(FxOf(a)), Abs(FxOf(b))) \div 1048576) < FxOf(dev) THEN "T"
       ELSE IF q - 3 - (MaxI(Abs(FxOf(a)), Abs(FxOf(b))) \div 1048576) > FxOf(dev) THEN "F" ELSE "?"
  ELSE "?"
AllClose(a, b, dev) ==
  LET s == {CloseT(a.e[k], b.e[k], dev) : k \in 1..Len(a.e)} IN
  IF "F" \in s THEN FalseT ELSE IF "?" \in s THEN AnyBool ELSE TrueT

EpsT == <<1, 0, 7>>      \* the library tolerance, 1e-4, seen at 2^-16
AndTok(s) == IF "F" \in s THEN FalseT ELSE IF "?" \in s THEN AnyBool ELSE TrueT

\* ---- quaternions ----------------------------------------------------------------
HamiltonTerms(p, q, k) ==     \* <<operands of p, operands of q, signs>> of component k
  CASE k = 0 -> <<<<p[1], p[2], p[3], p[4]>>, <<q[1], q[2], q[3], q[4]>>, <<1, -1, -1, -1>>>>
    [] k = 1 -> <<<<p[1], p[2], p[3], p[4]>>, <<q[2], q[1], q[4], q[3]>>, <<1, 1, 1, -1>>>>
    [] k = 2 -> <<<<p[1], p[2], p[3], p[4]>>, <<q[3], q[4], q[1], q[2]>>, <<1, -1, 1, 1>>>>
    [] k = 3 -> <<<<p[1], p[2], p[3], p[4]>>, <<q[4], q[3], q[2], q[1]>>, <<1, 1, -1, 1>>>>
Hamilton(p, q) ==
  MkV(4, LAMBDA k : LET t == HamiltonTerms(p.e, q.e, k) IN SumProd(t[1], t[2], t[3]))
Conj(q) == [q EXCEPT !.e = <<q.e[1], NegT(q.e[2]), NegT(q.e[3]), NegT(q.e[4])>>]
InverseQ(q) ==
  LET s == SumSq(q.e)
      sg == <<1, -1, -1, -1>>
  IN
  IF s = 0 THEN Blank(4, 1, Zero)
  ELSE IF s > 0 /\ s < 1048576
  THEN MkV(4, LAMBDA k : LET v == Div(sg[k + 1] * q.e[k + 1][2] * 64, s)
                         IN  Approx(v, 3 + (Abs(v) \div 32768)))
  ELSE IF \E k \in 1..4 : ~IsFin(q.e[k]) THEN Blank(4, 1, Maybe)
  ELSE LET t == NormT(q.e)
           x == Aligned(q.e)
       IN  IF t[1] = 7 /\ t[2] < 4 THEN Blank(4, 1, Zero)
           ELSE IF (t[1] = 7 /\ t[2] <= 11) \/ x.e >= 50 THEN Blank(4, 1, Maybe)
           ELSE LET n2 == DotFx(x.m, x.m)
                IN  MkV(4, LAMBDA k : Scaled(sg[k + 1] * Div(x.m[k + 1], n2), -x.e, 8))

\* Within 1e-4 of zero (1677.7 units of 2^-24) and of length one.
NearZero(t) == IF ~Below2(t) THEN "F"
               ELSE LET q == Abs(In24(t)) IN IF q <= 1676 THEN "T" ELSE IF q >= 1680 THEN "F" ELSE "?"
NearOne(t) == IF ~Below2(t) THEN "F"
              ELSE LET q == Abs(In24(t) - 16777216) IN IF q <= 1672 THEN "T" ELSE IF q >= 1684 THEN "F" ELSE "?"
UnitNormTest(q) ==
  IF \E k \in 1..4 : ~Below2(q.e[k]) THEN (IF \A k \in 1..4 : IsFin(q.e[k]) /\ Sci(q.e[k])[2] < 59 THEN FalseT ELSE Maybe)
  ELSE LET f == TLCEval([k \in 1..4 |-> Abs(In24(q.e[k]))])
           s == Sum([k \in 1..4 |-> (f[k] \div 4096) * (f[k] \div 4096) + (2 * (f[k] \div 4096) * (f[k] % 4096)) \div 4096])
           d == Abs(s - 16777216)
       IN  IF d <= 3320 THEN TrueT ELSE IF d >= 3390 THEN FalseT ELSE AnyBool

\* Rotation matrix element by element from the products q_a q_b.
DcmTerms(i, j) ==  \* sequence of <<a, b, coefficient>> over components 1..4 (w, x, y, z)
  CASE i = 0 /\ j = 0 -> <<<<1,1,1>>, <<2,2,1>>, <<3,3,-1>>, <<4,4,-1>>>>
    [] i = 1 /\ j = 1 -> <<<<1,1,1>>, <<2,2,-1>>, <<3,3,1>>, <<4,4,-1>>>>
    [] i = 2 /\ j = 2 -> <<<<1,1,1>>, <<2,2,-1>>, <<3,3,-1>>, <<4,4,1>>>>
    [] i = 0 /\ j = 1 -> <<<<2,3,2>>, <<1,4,-2>>>>
    [] i = 0 /\ j = 2 -> <<<<2,4,2>>, <<1,3,2>>>>
    [] i = 1 /\ j = 0 -> <<<<2,3,2>>, <<1,4,2>>>>
    [] i = 1 /\ j = 2 -> <<<<3,4,2>>, <<1,2,-2>>>>
    [] i = 2 /\ j = 0 -> <<<<2,4,2>>, <<1,3,-2>>>>
    [] i = 2 /\ j = 1 -> <<<<1,2,2>>, <<3,4,2>>>>
Dcm(q) ==
  IF SumSq(q.e) = 4096     \* exactly a unit quaternion
  THEN Mk(3, 3, LAMBDA i, j :
         LET t == DcmTerms(i, j) IN
         SumProd([k \in 1..Len(t) |-> q.e[t[k][1]]], [k \in 1..Len(t) |-> q.e[t[k][2]]],
                 [k \in 1..Len(t) |-> t[k][3]]))
  ELSE Blank(3, 3, IF \A k \in 1..4 : Medium(q.e[k]) THEN AnyFin ELSE Maybe)
Rotated(q, v) ==
  LET m == Dcm(q) IN
  IF \A k \in 1..9 : m.e[k][1] = 0
  THEN MkV(3, LAMBDA i : SumProd(Row(m, i), v.e, Plus(3)))
  ELSE Blank(3, 1, IF (\A k \in 1..4 : Medium(q.e[k])) /\ (\A k \in 1..3 : Medium(v.e[k])) THEN AnyFin ELSE Maybe)

\* e^(w + v) = e^w (cos |v| + v sin |v| / |v|) with e^w = 2^k e^r, |r| <= (ln 2) / 2, judged relative to e^w.
ExpQ(q) ==
  LET f == TLCEval([k \in 1..4 |-> FxOf(q.e[k])])
      v == <<f[2], f[3], f[4]>>
      n == NormFx(v)
      k == (f[1] + 22713) \div 45426
      m == ExpCore(f[1] - k * 45426 - (k * 935) \div 10000)
      Part(j) == IF n < 16384 THEN Mul(v[j], Sinc(n)) ELSE Mul(Div(v[j], n), Sin(n))
  IN
  IF (\E j \in 1..4 : ~IsFin(q.e[j])) \/ Abs(f[1]) > 80 * ONE \/ \E j \in 1..3 : Abs(v[j]) > 10 * ONE THEN Blank(4, 1, Maybe)
  ELSE MkV(4, LAMBDA j : Scaled(Mul(m, IF j = 0 THEN Cos(n) ELSE Part(j)), k, 24))

\* Spherical interpolation of exactly unit vectors; elsewhere unspecified.
SlerpT(a, b, t) ==
  LET sa == SumSq(a.e)
      sb == SumSq(b.e)
  IN
  IF sa = 4096 /\ sb = 4096
  THEN LET dot == Sum([k \in 1..Len(a.e) |-> a.e[k][2] * b.e[k][2]])
           om == Acos(dot * 16)
           so == Sin(om)
           ta == FxOf(t)
           wa == Div(Sin(Mul(ONE - ta, om)), so)
           wb == Div(Sin(Mul(ta, om)), so)
       IN  IF dot = 4096 THEN Map(a, LAMBDA x : Approx(FxOf(x), 4))
           ELSE IF dot = -4096 THEN [a EXCEPT !.e = [k \in 1..Len(a.e) |-> Maybe]]
           ELSE Map2(a, b, LAMBDA x, y : Approx(Mul(wa, FxOf(x)) + Mul(wb, FxOf(y)), 40))
  ELSE [a EXCEPT !.e = [k \in 1..Len(a.e) |-> Maybe]]

\* ---- the meaning of each call, preconditions satisfied ----------------------------
\* dr: destination register numbers; d: their contents; x: operand contents.
Effect(fn, fm, dr, d, x, n, f) ==
  LET Put(m) == Okay(<<<<dr[1], m>>>>, <<>>)
      Ret(t) == Okay(<<>>, <<t>>)
      Arg1 == IF fm = "ip" THEN d[1] ELSE x[1]
      Arg2 == IF fm = "ip" THEN x[1] ELSE x[2]
      FreeShape == Free(<<>>)
  IN
  CASE fn = "rows" -> Ret(IntT(x[1].r))
    [] fn = "cols" -> Ret(IntT(x[1].c))
    [] fn = "set" -> Put([d[1] EXCEPT !.e[n[1] * d[1].c + (IF Len(n) = 2 THEN n[2] ELSE 0) + 1] = f[1]])
    [] fn = "setb" -> Put([d[1] EXCEPT !.e[n[1] + 1] = IntT(n[2])])
    [] fn = "get" -> Ret(x[1].e[n[1] * x[1].c + (IF Len(n) = 2 THEN n[2] ELSE 0) + 1])
    [] fn = "fill" -> Put(Map(d[1], LAMBDA t : IF IsFin(f[1]) THEN f[1] ELSE Bad))
    [] fn = "ident" -> Put(Mk(d[1].r, d[1].c, LAMBDA i, j : IF i = j THEN OneT ELSE Zero))
    [] fn \in {"copy", "dup"} -> Put(x[1])
    [] fn = "setrow" -> Put(Mk(d[1].r, d[1].c, LAMBDA i, j : IF i = n[1] THEN El(x[1], j) ELSE At(d[1], i, j)))
    [] fn = "setcol" -> Put(Mk(d[1].r, d[1].c, LAMBDA i, j : IF j = n[1] THEN El(x[1], i) ELSE At(d[1], i, j)))
    [] fn \in {"getrow", "rowvec"} -> Put(Vec(Row(x[1], n[1])))
    [] fn \in {"getcol", "colvec"} -> Put(Vec(Col(x[1], n[1])))
    [] fn = "addrow" -> Put(WithRow(d[1], x[1], n[1]))
    [] fn = "addcol" -> Put(WithCol(d[1], x[1], n[1]))
    [] fn = "delrow" -> Okay(<<<<dr[1], WithoutRow(d[1], n[1])>>, <<dr[2], Vec(Row(d[1], n[1]))>>>>, <<>>)
    [] fn = "tr" -> Put(Transposed(Arg1))
    [] fn = "diag" -> Put(Diagonal(x[1], IF n[1] = 99 THEN 0 ELSE n[1]))
    [] fn = "tomat" -> Put(x[1])
    [] fn = "same" -> Ret(Bool(Same(x[1], x[2])))
    [] fn = "square" -> Ret(Bool(Square(x[1])))
    [] fn = "eq" -> Ret(IF Same(x[1], x[2]) THEN AllClose(x[1], x[2], f[1]) ELSE FalseT)
    [] fn = "add" -> Put(Map2(Arg1, Arg2, AddT))
    [] fn = "sub" -> Put(Map2(Arg1, Arg2, SubT))
    [] fn = "adds" -> Put(Map(Arg1, LAMBDA t : AddT(t, f[1])))
    [] fn = "subs" -> Put(Map(Arg1, LAMBDA t : SubT(t, f[1])))
    [] fn = "muls" -> Put(Map(Arg1, LAMBDA t : MulT(t, f[1])))
    [] fn = "pow" -> Put(Map(d[1], LAMBDA t : PowT(t, f[1])))
    [] fn = "mul" -> Put(Product(x[1], x[2]))
    [] fn = "outer" -> Put(Mk(x[1].r, x[2].r, LAMBDA i, j : MulT(El(x[1], i), El(x[2], j))))
    [] fn = "dot" -> Ret(SumProd(x[1].e, x[2].e, Plus(x[1].r)))
    [] fn = "trace" -> LET t == Diagonal(x[1], 0) IN Ret(SumProd(t.e, [k \in 1..t.r |-> OneT], Plus(t.r)))
    [] fn = "frob" -> Ret(NormT(x[1].e))
    [] fn = "norm" -> Ret(VNormT(x[1].e))
    [] fn = "normalize" ->
         LET t == NormT(d[1].e) IN
         IF t[1] = 7 /\ t[2] <= 3 THEN Put(Map(d[1], LAMBDA y : Zero))
         ELSE IF t[1] = 7 /\ t[2] <= 11 THEN Put(Map(d[1], LAMBDA y : AnyFin))
         ELSE Put(MkV(d[1].r, LAMBDA k : UnitT(d[1].e, k + 1)))
    [] fn = "lerp" -> Put(Map2(x[1], x[2], LAMBDA a, b : LerpT(a, b, f[1])))
    [] fn = "slerp" -> Put(SlerpT(x[1], x[2], f[1]))
    [] fn = "isq" -> Ret(Bool(x[1].r = 4))
    [] fn = "isreal" -> Ret(AndTok({NearZero(x[1].e[k]) : k \in 2..4}))
    [] fn = "ispure" -> Ret(AndTok({NearZero(x[1].e[1])}))
    [] fn = "isversor" -> Ret(UnitNormTest(x[1]))
    [] fn = "isident" -> Ret(IF ~Known(x[1].e[1]) THEN FalseT
                             ELSE AndTok({NearZero(x[1].e[k]) : k \in 2..4} \cup
{NearOne(x[1].e[1])}))
    [] fn \in {"setq0", "setq1", "setq2", "setq3"} ->
         LET k == CASE fn = "setq0" -> 1 [] fn = "setq1" -> 2 [] fn = "setq2" -> 3 [] OTHER -> 4
         IN  Put([d[1] EXCEPT !.e[k] = IF IsFin(f[1]) THEN f[1] ELSE Bad])
    [] fn = "getq0" -> Ret(x[1].e[1])
    [] fn = "getq1" -> Ret(x[1].e[2])
    [] fn = "getq2" -> Ret(x[1].e[3])
    [] fn = "getq3" -> Ret(x[1].e[4])
    [] fn = "vecpart" -> Put(Vec(<<x[1].e[2], x[1].e[3], x[1].e[4]>>))
    [] fn = "fillq" -> Put(Vec([k \in 1..4 |-> IF IsFin(f[k]) THEN f[k] ELSE Bad]))
    [] fn = "fillid" -> Put(Vec(<<OneT, Zero, Zero, Zero>>))
    [] fn = "conj" -> Put(Conj(Arg1))
    [] fn = "qmul" -> Put(Hamilton(x[1], x[2]))
    [] fn = "qinv" -> Put(InverseQ(d[1]))
    [] fn = "qexp" -> Put(ExpQ(Arg1))
    [] fn = "dcm" -> Put(Dcm(x[1]))
    [] fn = "rot" -> Put(Rotated(x[1], IF fm = "ip" THEN d[1] ELSE x[2]))
    [] OTHER -> FreeShape

\* Life cycle calls work on registers in either state.
Life(ev, R) ==
  LET reg == IF Len(ev.d) > 0 THEN R[ev.d[1]] ELSE R[ev.x[1]]
      isMat == Len(ev.i) = 2
      errs == DimErrs(ev.i[1], IF isMat THEN ev.i[2] ELSE 1)
      Fresh(t) == Okay(<<<<ev.d[1], Blank(ev.i[1], IF isMat THEN ev.i[2] ELSE 1, t)>>>>, <<>>)
  IN
  CASE ev.fn = "new" -> Okay(<<<<ev.d[1], Uninit>>>>, <<>>)
    [] ev.fn = "init" ->
         IF reg.i THEN Refuse({"AlreadyInit"} \cup errs)
         ELSE IF errs # {} THEN Refuse(errs) ELSE Fresh(Zero)
    [] ev.fn = "reinit" ->
         IF ~reg.i THEN RefuseUn({"NotInit"} \cup errs)
         ELSE IF errs # {} THEN Refuse(errs) ELSE Fresh(AnyFin)
    [] ev.fn = "isinit" -> Okay(<<>>, <<Bool(reg.i)>>)

Expect(ev, R) ==
  IF ev.fn \in {"new", "init", "reinit", "isinit"} THEN Life(ev, R)
  ELSE
  LET \* registers that merely receive a returned object carry no precondition
      received == IF ev.fm = "new" THEN {ev.d[k] : k \in 1..Len(ev.d)}
                  ELSE IF ev.fn = "delrow" THEN {ev.d[2]} ELSE {}
      read == ({ev.d[k] : k \in 1..Len(ev.d)} \ received) \cup {ev.x[k] : k \in 1..Len(ev.x)}
      d == TLCEval([k \in 1..Len(ev.d) |-> R[ev.d[k]]])
      x == TLCEval([k \in 1..Len(ev.x) |-> R[ev.x[k]]])
  IN
  IF \E q \in read : ~R[q].i
  THEN RefuseUn(UninitErrs \cup NumErrs \cup {"InvalidAlpha", "NotSquare", "NotSymetric", "NotInversible"})
  ELSE LET errs == Pre(ev.fn, ev.fm, d, x, ev.i, ev.f) IN
       IF errs # {} THEN Refuse(errs)
       ELSE Effect(ev.fn, ev.fm, ev.d, d, x, ev.i, ev.f)

\* ---- judging one observed call ------------------------------------------------------
PostReg(p) == [i |-> p[2] = 1, r |-> p[3], c |-> p[4], e |-> p[5]]
PostOf(ev) == TLCEval([q \in {ev.post[k][1] : k \in 1..Len(ev.post)} |->
                 PostReg(ev.post[CHOOSE k \in 1..Len(ev.post) : ev.post[k][1] = q])])

SameDims(a, b) == a.i = b.i /\ a.r = b.r /\ a.c = b.c
MatchReg(exp, act) ==
  SameDims(exp, act) /\ \A k \in 1..Len(exp.e) : MatchT(exp.e[k], act.e[k])

\* The set of ways in which the observed call ev departs from the specification.
Faults(ev, R) ==
  LET P == PostOf(ev)
      E == Expect(ev, R)
      dests == {ev.d[k] : k \in 1..Len(ev.d)}
      touched == DOMAIN P
      opsame == \A q \in touched \ dests : P[q] = R[q]
      allsame == \A q \in touched : P[q] = R[q]
      finite == \A q \in touched : \A k \in 1..Len(P[q].e) : IsFin(P[q].e[k])
      shaped == \A q \in touched :
                  P[q].i => P[q].r \in 1..MaxDim /\ P[q].c \in 1..MaxDim /\ Len(P[q].e) = P[q].r * P[q].c
      wtoks == UNION {{E.w[k][2].e[j] : j \in 1..Len(E.w[k][2].e)} : k \in 1..Len(E.w)}
      mustfail == \E t \in wtoks : t[1] = 8
      mayfail == (\E t \in wtoks : t[1] = 9) \/ (\E k \in 1..Len(E.r) : E.r[k][1] \in {8, 9})
      F(c, s) == IF c THEN {} ELSE {s}
  IN
  F(finite, "finite") \cup F(shaped, "dims") \cup F(opsame, "operand") \cup
  (IF ev.fn # "print" THEN {}
   ELSE F(IF ev.s = "ok" THEN R[ev.x[1]].i /\ Shown(R[ev.x[1]].r, R[ev.x[1]].c, R[ev.x[1]].e, ev.o) ELSE ev.o = <<>>, "display")) \cup
  IF ev.s = "panic" THEN {"panic"}
  ELSE IF E.ref # {}
  THEN IF ev.s = "ok" THEN {"accepted"} \cup F(~E.un, "uninit")
       ELSE F(ev.e \in E.ref, "errkind") \cup F(allsame, "refusal")
            \cup F(\A q \in touched : SameDims(P[q], R[q]), "dims")
  ELSE IF E.free
  THEN IF ev.s = "err" /\ ev.e \notin NumErrs THEN F(allsame, "refusal") ELSE {}
  ELSE IF ev.s = "err"
  THEN IF mustfail \/ mayfail
       THEN F(ev.e \in NumErrs, "errkind") \cup F(\A q \in touched : SameDims(P[q], R[q]), "dims")
       ELSE {"outcome"}
  ELSE IF mustfail THEN {"nonfinite accepted"}
  ELSE F(\A k \in 1..Len(E.w) : SameDims(E.w[k][2], P[E.w[k][1]]), "dims")
       \cup F(\A k \in 1..Len(E.w) : MatchReg(E.w[k][2], P[E.w[k][1]]), "state")
       \cup F(Len(E.r) = Len(ev.r) /\
              \A k \in 1..Len(E.r) : E.r[k][1] \in {8, 9} \/ MatchT(E.r[k], ev.r[k]), "value")
===============================================================================
