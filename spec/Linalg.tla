--------------------------------- MODULE Linalg --------------------------------
(***************************************************************************)
(* Square matrices of size 1..4 over the integers, in exact arithmetic, and *)
(* what determinants, inversion, factorisations, predicates and the         *)
(* eigen-decomposition of such a matrix have to be.  A matrix is a sequence *)
(* of its entries, row after row.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Fx

At(a, n, i, j) == a[(i - 1) * n + j]
Mat(n, F(_, _)) == TLCEval([k \in 1..(n * n) |-> F(((k - 1) \div n) + 1, ((k - 1) % n) + 1)])
Transpose(a, n) == Mat(n, LAMBDA i, j : At(a, n, j, i))
Delta(i, j) == IF i = j THEN 1 ELSE 0
Identity(n) == Mat(n, LAMBDA i, j : Delta(i, j))
MatMul(a, b, n) == Mat(n, LAMBDA i, j : Sum([k \in 1..n |-> At(a, n, i, k) * At(b, n, k, j)]))
SwapRows(a, n, p, q) == Mat(n, LAMBDA i, j : At(a, n, IF i = p THEN q ELSE IF i = q THEN p ELSE i, j))
AbsM(a) == TLCEval([k \in DOMAIN a |-> Abs(a[k])])
MaxAbs(a) == LET S == {Abs(a[k]) : k \in DOMAIN a} IN CHOOSE x \in S : \A y \in S : y <= x

\* Without row i and column j.
Minor(a, n, p, q) ==
  Mat(n - 1, LAMBDA i, j : At(a, n, IF i < p THEN i ELSE i + 1, IF j < q THEN j ELSE j + 1))
Leading(a, n, k) == Mat(k, LAMBDA i, j : At(a, n, i, j))

Parity(k) == IF k % 2 = 0 THEN 1 ELSE -1

RECURSIVE Det(_, _)
Det(a, n) ==
  IF n = 1 THEN a[1]
  ELSE IF n = 2 THEN a[1] * a[4] - a[2] * a[3]
  ELSE Sum([j \in 1..n |-> IF a[j] = 0 THEN 0 ELSE Parity(j + 1) * a[j] * Det(Minor(a, n, 1, j), n - 1)])

RECURSIVE Permanent(_, _)
Permanent(a, n) ==
  IF n = 1 THEN a[1]
  ELSE Sum([j \in 1..n |-> IF a[j] = 0 THEN 0 ELSE a[j] * Permanent(Minor(a, n, 1, j), n - 1)])

Adjugate(a, n) ==
  IF n = 1 THEN <<1>> ELSE Mat(n, LAMBDA i, j : Parity(i + j) * Det(Minor(a, n, j, i), n - 1))

LeadMinor(a, n, k) == Det(Leading(a, n, k), k)
Symmetric(a, n) == \A i, j \in 1..n : At(a, n, i, j) = At(a, n, j, i)
PositiveDefinite(a, n) == Symmetric(a, n) /\ \A k \in 1..n : LeadMinor(a, n, k) >= 1
Indefinite(a, n) == \E k \in 1..n : LeadMinor(a, n, k) <= -1
UpperT(a, n) == \A i, j \in 1..n : j < i => At(a, n, i, j) = 0
LowerT(a, n) == \A i, j \in 1..n : j > i => At(a, n, i, j) = 0
Orthogonal(a, n) == MatMul(a, Transpose(a, n), n) = Identity(n)

\* ---- products of observed fixed-point factors --------------------------------
\* Entry (i, j) of a product of matrices at scale 2^16, at scale 2^16.
ProdFx(a, b, n, i, j) == Sum([k \in 1..n |-> SatMul(At(a, n, i, k), At(b, n, k, j))])
\* The same for factors and product at scale 2^12.
Mul12(a, b) == SatMul(a, b * 16)
Prod12(a, b, n, i, j) == Sum([k \in 1..n |-> Mul12(At(a, n, i, k), At(b, n, k, j))])
Near16(v, int, tol) == Near(v, int * ONE, tol)

\* No pivot of the elimination of 2^s a is below 2.4e-4: the entries of the inverse bound those of every
\* remaining block's, so the largest entry of a column is at least 1 / (n max |a^-1|).
AwayFromZero(a, n, s) ==
  \/ s >= -2
  \/ LET d == Abs(Det(a, n)) IN d > 0 /\ d * 4096 >= n * MaxAbs(Adjugate(a, n)) * 2^(-s)

\* ---- judgements: the set of ways in which a recorded call deviates ----------------
\* Determinant at scale 2^10.
DetFaults(n, s, a, ok, e, o) ==
  LET d == Det(a, n)
      tol == 2 + Permanent(AbsM(a), n) \div 512
  IN  IF ok THEN (IF Near(o[1][1], d * 1024, tol) THEN {} ELSE {"value"})
      ELSE IF d # 0 /\ AwayFromZero(a, n, s) THEN {"refused"} ELSE IF e # "Singular" THEN {"errkind"} ELSE {}

RefusedErr == {"Singular", "NotInversible", "Unsolvable"}

\* Inverse at scale 2^16 (after undoing the scaling), or the unchanged matrix at scale 2^10.
InvFaults(n, s, a, ok, e, o) ==
  LET d == Det(a, n)
      x == o[1]
      Res(i, j) == Sum([k \in 1..n |-> At(a, n, i, k) * At(x, n, k, j)])
      Tol(i, j) == 8 + Sum([k \in 1..n |-> Abs(At(a, n, i, k))])
                     + Sum([k \in 1..n |-> Abs(At(a, n, i, k)) * (Abs(At(x, n, k, j)) \div 65536)])
      kept == \A k \in 1..(n * n) : x[k] = a[k] * 1024
  IN  IF d = 0 THEN IF s # 0 THEN {}
                    ELSE IF ok THEN {"accepted"}
                    ELSE (IF e \in RefusedErr THEN {} ELSE {"errkind"}) \cup (IF kept THEN {} ELSE {"changed"})
      ELSE IF ~ok THEN (IF AwayFromZero(a, n, s) THEN {"refused"} ELSE {}) \cup (IF kept THEN {} ELSE {"changed"})
      ELSE IF \A k \in DOMAIN x : Abs(x[k]) < 67108864
      THEN IF \A i, j \in 1..n : Near16(Res(i, j), Delta(i, j), Tol(i, j)) THEN {} ELSE {"value"}
      ELSE {"value"}

\* Solution at scale 2^10.
SolveFaults(n, s, a, b, ok, e, o) ==
  LET d == Det(a, n)
      x == o[1]
      Res(i) == Sum([k \in 1..n |-> At(a, n, i, k) * x[k]])
      Tol(i) == 2 + Sum([k \in 1..n |-> Abs(At(a, n, i, k))])
                  + Sum([k \in 1..n |-> (Abs(At(a, n, i, k)) * Abs(x[k])) \div 32768])
  IN  IF d = 0 THEN IF s # 0 THEN {} ELSE IF ok THEN {"accepted"} ELSE IF e \in RefusedErr THEN {} ELSE {"errkind"}
      ELSE IF ~ok THEN (IF AwayFromZero(a, n, s) THEN {"refused"} ELSE {})
      ELSE IF Len(x) # n THEN {"shape"}
      ELSE IF \A k \in DOMAIN x : Abs(x[k]) < 67108864
      THEN IF \A i \in 1..n : Near(Res(i), b[i] * 1024, Tol(i)) THEN {} ELSE {"value"}
      ELSE {"value"}

\* Adjugate of a matrix with orthogonal rows of equal length.
AdjFaults(n, a, ok, o) ==
  IF ~ok THEN {"refused"}
  ELSE LET x == Adjugate(a, n) IN IF \A k \in 1..(n * n) : Near16(o[1][k], x[k], 64) THEN {} ELSE {"value"}

\* Unit lower times upper, both at scale 2^12.
LuFaults(n, a, ok, o) ==
  LET must == \A k \in 1..n : LeadMinor(a, n, k) # 0
      l == o[1]
      u == o[2]
      Tol(i, j) == 4 + Sum([k \in 1..n |-> (Abs(At(l, n, i, k)) + Abs(At(u, n, k, j))) \div 4096])
                     + Sum([k \in 1..n |-> Abs(Mul12(At(l, n, i, k), At(u, n, k, j))) \div 65536])
  IN  IF ~ok THEN (IF must THEN {"refused"} ELSE {})
      ELSE IF Len(l) # n * n \/ Len(u) # n * n THEN {"shape"}
      ELSE IF \E k \in 1..(n * n) : Abs(l[k]) > 33554432 \/ Abs(u[k]) > 33554432 THEN {"value"}
      ELSE (IF LowerT(l, n) /\ UpperT(u, n) /\ \A i \in 1..n : At(l, n, i, i) = 4096 THEN {} ELSE {"shape"})
           \cup (IF \A i, j \in 1..n : Near(Prod12(l, u, n, i, j), At(a, n, i, j) * 4096, Tol(i, j)) THEN {} ELSE {"value"})

\* Orthogonal times upper, both at scale 2^16.
QrFaults(n, a, ok, o) ==
  LET q == o[1]
      r == o[2]
      qt == Transpose(q, n)
      tol == 24 + 8 * MaxAbs(a)
  IN  IF ~ok THEN {"refused"}
      ELSE IF Len(q) # n * n \/ Len(r) # n * n THEN {"shape"}
      ELSE (IF \A i, j \in 1..n : Near16(ProdFx(qt, q, n, i, j), Delta(i, j), 64) THEN {} ELSE {"orthogonal"})
           \cup (IF \A i, j \in 1..n : j < i => Abs(At(r, n, i, j)) <= 32 + 8 * MaxAbs(a) THEN {} ELSE {"shape"})
           \cup (IF \A i, j \in 1..n : Near16(ProdFx(q, r, n, i, j), At(a, n, i, j), tol) THEN {} ELSE {"value"})

\* The same for a matrix with entries in 1/1024 whose columns may be nearly dependent.
QrNearFaults(n, a, ok, o) ==
  LET q == o[1]
      r == o[2]
      qt == Transpose(q, n)
      tol == 64 + MaxAbs(a) \div 16
  IN  IF ~ok THEN {"refused"}
      ELSE IF Len(q) # n * n \/ Len(r) # n * n THEN {"shape"}
      ELSE (IF \A i, j \in 1..n : Near16(ProdFx(qt, q, n, i, j), Delta(i, j), 96) THEN {} ELSE {"orthogonal"})
           \cup (IF \A i, j \in 1..n : j < i => Abs(At(r, n, i, j)) <= 224 THEN {} ELSE {"shape"})
           \cup (IF \A i, j \in 1..n : Near(ProdFx(q, r, n, i, j), At(a, n, i, j) * 64, tol) THEN {} ELSE {"value"})

CholFaults(n, a, ok, e, o) ==
  LET l == o[1]
      lt == Transpose(l, n)
      tol == 16 + 8 * MaxAbs(a)
  IN  IF ~Symmetric(a, n) THEN IF ok THEN {"accepted"} ELSE IF e # "NotSymetric" THEN {"errkind"} ELSE {}
      ELSE IF Indefinite(a, n) THEN IF ok THEN {"accepted"}
                                     ELSE IF e \notin {"NotPositiveDefinite", "Singular"} THEN {"errkind"} ELSE {}
      ELSE IF PositiveDefinite(a, n)
      THEN IF ~ok THEN {"refused"}
           ELSE IF Len(l) # n * n THEN {"shape"}
           ELSE (IF LowerT(l, n) /\ \A i \in 1..n : At(l, n, i, i) > 0 THEN {} ELSE {"shape"})
                \cup (IF \A i, j \in 1..n : Near16(ProdFx(l, lt, n, i, j), At(a, n, i, j), tol) THEN {} ELSE {"value"})
      ELSE {}                      \* semidefinite: undecided within rounding

\* Row permutation and packed factors at scale 2^16.
LupFaults(n, s, a, ok, e, o) ==
  LET d == Det(a, n)
      p == o[1]
      lu == o[2]
      isperm == Len(p) = n /\ {p[k] : k \in 1..n} = 0..(n - 1)
      L(i, k) == IF k < i THEN At(lu, n, p[i] + 1, k) ELSE IF k = i THEN ONE ELSE 0
      U(k, j) == IF k <= j THEN At(lu, n, p[k] + 1, j) ELSE 0
      P(i, j) == Sum([k \in 1..n |-> SatMul(L(i, k), U(k, j))])
      tol == 24 + 8 * MaxAbs(a)
  IN  IF ~ok THEN IF d # 0 /\ AwayFromZero(a, n, s) THEN {"refused"} ELSE IF e # "Singular" THEN {"errkind"} ELSE {}
      ELSE IF ~isperm \/ Len(lu) # n * n THEN {"shape"}
      ELSE IF \A i, j \in 1..n : Near16(P(i, j), At(a, n, p[i] + 1, j), tol) THEN {} ELSE {"value"}

\* Operations on square matrices refuse the others and leave them alone.
NonSquareOps == <<"det", "det_naive", "lr", "crout", "chol", "eigen", "inverse">>
NonSquareFaults(a, b, o) ==
  {NonSquareOps[k] : k \in {q \in 1..7 : b[q] \notin {"NotSquare", "NotSymetric"}}}
  \cup (IF o[1] = [k \in DOMAIN a |-> a[k] * 1024] THEN {} ELSE {"changed"})

\* ---- predicates -----------------------------------------------------------------
\* Entries at scale 2^16, exactly.  The tolerance 1e-4 lies between 6 and 7 units.
IsBig(x) == Abs(x) >= 7
DotAcc(u, v) ==
  LET h == Sum([k \in 1..Len(u) |-> (u[k] \div 256) * v[k]])
      l == Sum([k \in 1..Len(u) |-> (u[k] % 256) * v[k]])
  IN  (h + (l \div 256) + 128) \div 256
Row(a, c, i) == [k \in 1..c |-> a[(i - 1) * c + k]]
Cell(a, c, i, j) == a[(i - 1) * c + j]
Whole(a) == \A k \in DOMAIN a : a[k] % ONE = 0

RECURSIVE DetFx(_, _)
DetFx(a, n) ==
  IF n = 1 THEN a[1]
  ELSE Sum([j \in 1..n |-> Parity(j + 1) * SatMul(a[j], DetFx(Minor(a, n, 1, j), n - 1))])

Definite(b) == IF b THEN {"T"} ELSE {"F"}

SquareAns(r, c) == Definite(r = c)
SymmetricAns(a, r, c) ==
  IF r # c THEN {"F", "NotSquare"}
  ELSE Definite(\A i, j \in 1..r : ~IsBig(Cell(a, c, i, j) - Cell(a, c, j, i)))
UpperAns(a, r, c) == Definite(\A i \in 1..r, j \in 1..c : j < i => ~IsBig(Cell(a, c, i, j)))
LowerAns(a, r, c) == Definite(\A i \in 1..r, j \in 1..c : j > i => ~IsBig(Cell(a, c, i, j)))
OrthoAns(a, r, c, special) ==
  IF r # c THEN {"F", "NotSquare"}
  ELSE
  LET huge == \E k \in DOMAIN a : Abs(a[k]) >= 2 * ONE      \* entries of an orthogonal matrix are at most one
      E == TLCEval([k \in 1..(r * r) |-> LET i == ((k - 1) \div r) + 1
                                             j == ((k - 1) % r) + 1
                                         IN  Abs(DotAcc(Row(a, r, i), Row(a, r, j)) - Delta(i, j) * ONE)])
      close == (\A k \in 1..(r * r) : E[k] <= 5) /\ Sum([i \in 1..r |-> At(E, r, i, i)]) <= 8
      far == \E k \in 1..(r * r) : E[k] >= 8
      whole == Whole(a)
      ints == TLCEval([k \in 1..(r * r) |-> a[k] \div ONE])
  IN  IF ~huge /\ close THEN (IF special /\ DetFx(a, r) < 0 THEN {"F"} ELSE {"T"})
      ELSE IF huge \/ far THEN (IF whole /\ Det(ints, r) # 0 THEN {"F"} ELSE {"F", "Singular"})
      ELSE {"T", "F", "Singular"}
PosDefAns(a, r, c) ==
  IF r # c THEN {"F", "NotSymetric", "NotSquare"}
  ELSE IF SymmetricAns(a, r, c) = {"F"} THEN {"F", "NotSymetric"}
  ELSE IF ~Whole(a) THEN {"T", "F", "Singular"}
  ELSE LET ints == TLCEval([k \in 1..(r * r) |-> a[k] \div ONE])
           m == TLCEval([k \in 1..r |-> LeadMinor(ints, r, k)])
       IN  IF \A k \in 1..r : m[k] >= 1 THEN {"T"}
           ELSE IF (\E k \in 1..r : m[k] <= -1) \/ m[1] = 0 \/ (r > 1 /\ m[2] = 0) THEN {"F", "Singular"}
           ELSE {"T", "F", "Singular"}

PredNames == <<"square", "symmetric", "upper", "lower", "orthogonal", "special", "definite">>
PredFaults(r, c, a, b) ==
  LET exp == <<SquareAns(r, c), SymmetricAns(a, r, c), UpperAns(a, r, c), LowerAns(a, r, c),
               OrthoAns(a, r, c, FALSE), OrthoAns(a, r, c, TRUE), PosDefAns(a, r, c)>>
  IN  {PredNames[k] : k \in {q \in 1..7 : b[q] \notin exp[q]}}

\* ---- eigen-decomposition ------------------------------------------------------------
\* Eigenvalues and eigenvectors (columns) at scale 2^16; known is the list of exact eigenvalues, or empty.
Frob(a) == ISqrt(Sum([k \in DOMAIN a |-> a[k] * a[k]])) + 1
Separated(a, n, known) ==
  /\ Len(known) = n
  /\ \A k \in 1..n : Det([q \in 1..(n * n) |-> a[q] - (IF (q - 1) \div n = (q - 1) % n THEN known[k] ELSE 0)], n) = 0
  /\ \A i, j \in 1..n : i # j => \/ 10 * Abs(known[i]) <= 7 * Abs(known[j])
                                 \/ 10 * Abs(known[j]) <= 7 * Abs(known[i])
EigenFaults(n, a, niter, shifted, known, ok, e, o) ==
  LET lam == o[1]
      v == o[2]
      vt == Transpose(v, n)
      f == Frob(a)
      \* the shifted iteration factors nearly singular matrices, at the expense of orthogonality
      tol == IF shifted = 1 THEN 32 * f + 256 ELSE f \div 2 + 4
      slack == IF shifted = 1 THEN 3072 ELSE 96
      \* both sides at scale 2^10
      Lhs(i, k) == Sum([j \in 1..n |-> At(a, n, i, j) * At(v, n, j, k)]) \div 64
      Rhs(i, k) == SatMul(lam[k] \div 64, At(v, n, i, k))
      must == niter >= 300 /\ shifted = 0 /\ known # <<>> /\ Separated(a, n, known)
  IN  IF ~ok THEN (IF e # "Unsolvable" THEN {"errkind"} ELSE {}) \cup (IF must THEN {"refused"} ELSE {})
      ELSE IF niter = 0 THEN {"accepted"}
      ELSE IF Len(lam) # n \/ Len(v) # n * n THEN {"shape"}
      ELSE IF \E k \in 1..(n * n) : Abs(v[k]) > 80000 THEN {"unit"}
      ELSE (IF \A i, j \in 1..n : Near16(ProdFx(vt, v, n, i, j), Delta(i, j), slack) THEN {} ELSE {"unit"})
           \cup (IF \A i, k \in 1..n : Near(Lhs(i, k), Rhs(i, k), tol) THEN {} ELSE {"eigenpair"})
===============================================================================
