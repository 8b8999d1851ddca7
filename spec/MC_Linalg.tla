------------------------------- MODULE MC_Linalg -------------------------------
(***************************************************************************)
(* Elimination with any choice of pivot, on every small integer matrix.    *)
(* The matrix is reduced without fractions (Bareiss), so that every pivot  *)
(* is a minor of the matrix.  Whatever rows are exchanged, the determinant, *)
(* the triangular factors and singularity come out the same: the judgements *)
(* of Linalg do not depend on the pivoting rule of an implementation.      *)
(* On top of that, the judgements themselves are tried on every matrix:    *)
(* they accept the exact result and reject a wrong one.                    *)
(***************************************************************************)
EXTENDS Linalg

CONSTANTS N, R

VARIABLES a,     \* the matrix
          m,     \* partly reduced
          p,     \* row permutation
          k,     \* next column
          sg,    \* parity of the exchanges
          st     \* "new", "run", "done", "singular"
vars == <<a, m, p, k, sg, st>>

\* The first row is chosen first, the others in a second step (so that TLC spreads the work).
Init ==
  /\ \E row \in [1..N -> -R..R] : a = [q \in 1..(N * N) |-> IF q <= N THEN row[q] ELSE 0]
  /\ m = a
  /\ p = [i \in 1..N |-> i]
  /\ k = 1
  /\ sg = 1
  /\ st = "new"

Choose ==
  /\ st = "new"
  /\ \E rest \in [(N + 1)..(N * N) -> -R..R] : a' = [q \in 1..(N * N) |-> IF q <= N THEN a[q] ELSE rest[q]]
  /\ m' = a'
  /\ st' = "run"
  /\ UNCHANGED <<p, k, sg>>

Prev(x) == IF k = 1 THEN 1 ELSE At(x, N, k - 1, k - 1)

Eliminate(x) ==
  LET d == At(x, N, k, k)
      q == Prev(x)
  IN  Mat(N, LAMBDA i, j :
        IF i > k /\ j > k
        THEN LET v == d * At(x, N, i, j) - At(x, N, i, k) * At(x, N, k, j) IN QuoI(v, q)
        ELSE At(x, N, i, j))
Exact(x) ==
  LET d == At(x, N, k, k)
      q == Prev(x)
  IN  \A i, j \in (k + 1)..N : (d * At(x, N, i, j) - At(x, N, i, k) * At(x, N, k, j)) % Abs(q) = 0

Pivot(r) ==
  /\ st = "run" /\ k < N
  /\ At(m, N, r, k) # 0
  /\ LET x == SwapRows(m, N, k, r)
     IN  /\ Assert(Exact(x), "division")
         /\ m' = Eliminate(x)
         /\ p' = [p EXCEPT ![k] = p[r], ![r] = p[k]]
         /\ sg' = IF r = k THEN sg ELSE -sg
  /\ k' = k + 1
  /\ UNCHANGED <<a, st>>

Stuck ==
  /\ st = "run" /\ k < N
  /\ \A r \in k..N : At(m, N, r, k) = 0
  /\ st' = "singular"
  /\ UNCHANGED <<a, m, p, k, sg>>

Finish ==
  /\ st = "run" /\ k = N
  /\ st' = IF At(m, N, N, N) = 0 THEN "singular" ELSE "done"
  /\ UNCHANGED <<a, m, p, k, sg>>

Next == Choose \/ (\E r \in k..N : Pivot(r)) \/ Stuck \/ Finish
Spec == Init /\ [][Next]_vars

\* ---- what elimination establishes ---------------------------------------------
Permuted == Mat(N, LAMBDA i, j : At(a, N, p[i], j))
PivotsAreMinors == \A q \in 1..(k - 1) : At(m, N, q, q) = LeadMinor(Permuted, N, q)
SignIsParity ==
  sg = Parity(Cardinality({<<i, j>> \in (1..N) \X (1..N) : i < j /\ p[i] > p[j]}))
DeterminantAgrees ==
  /\ st = "done" => sg * At(m, N, N, N) = Det(a, N) /\ Det(a, N) # 0
  /\ st = "singular" => Det(a, N) = 0
\* The factors L(i,q) = m(i,q)/m(q,q), U(q,j) = m(q,j)/m(q-1,q-1), multiplied back.
D(q) == IF q = 0 THEN 1 ELSE At(m, N, q, q)
RECURSIVE ProdD(_)
ProdD(q) == IF q < 0 THEN 1 ELSE D(q) * ProdD(q - 1)
FactorsMultiplyBack ==
  st = "done" =>
    LET w == ProdD(N) IN
    \A i, j \in 1..N :
      Sum([q \in 1..N |-> IF q <= i /\ q <= j
                          THEN QuoI(At(m, N, i, q) * At(m, N, q, j) * w, D(q) * D(q - 1)) ELSE 0])
      = At(Permuted, N, i, j) * w

\* What AwayFromZero counts on: the best pivot of every step is bounded from below by the inverse.
PivotsAreClear ==
  (st = "run" /\ Det(a, N) # 0) =>
    \E r \in k..N : N * MaxAbs(Adjugate(a, N)) * Abs(At(m, N, r, k)) >= Abs(Det(a, N)) * Abs(D(k - 1))

\* ---- laws of the operators -------------------------------------------------------
Fresh == k = 1 /\ st = "run"
TransposeLaw == Fresh => Det(Transpose(a, N), N) = Det(a, N)
SwapLaw == Fresh /\ N > 1 => Det(SwapRows(a, N, 1, N), N) = -Det(a, N)
AdjugateLaw ==
  Fresh => MatMul(a, Adjugate(a, N), N) = Mat(N, LAMBDA i, j : Delta(i, j) * Det(a, N))
OrthogonalLaw ==
  Fresh => (Orthogonal(a, N) <=> \A i \in 1..N :
             /\ Cardinality({j \in 1..N : At(a, N, i, j) # 0}) = 1
             /\ Cardinality({j \in 1..N : At(a, N, j, i) # 0}) = 1
             /\ \A j \in 1..N : Abs(At(a, N, i, j)) <= 1)
Form(x) == Sum([i \in 1..N |-> Sum([j \in 1..N |-> x[i] * At(a, N, i, j) * x[j]])])
Sylvester ==
  (Fresh /\ Symmetric(a, N)) =>
    (PositiveDefinite(a, N) <=> \A x \in [1..N -> -2..2] : (\E i \in 1..N : x[i] # 0) => Form(x) > 0)

\* ---- the judgements are neither too strict nor too lax -------------------------------
Fx10(x) == [q \in DOMAIN x |-> x[q] * 1024]
Fx16(x) == [q \in DOMAIN x |-> x[q] * ONE]
JudgeDet ==
  Fresh => LET d == Det(a, N) IN
    /\ DetFaults(N, 0, a, TRUE, "", <<<<d * 1024>>>>) = {}
    /\ DetFaults(N, 0, a, TRUE, "", <<<<(d + 1) * 1024>>>>) # {}
    /\ d # 0 => DetFaults(N, 0, a, TRUE, "", <<<<-d * 1024>>>>) # {}
    /\ (DetFaults(N, 0, a, FALSE, "Singular", <<>>) = {}) <=> d = 0
JudgeInv ==
  Fresh => LET d == Det(a, N)
               x == Adjugate(a, N)
               inv == [q \in DOMAIN x |-> Div(x[q] * ONE, d * ONE)]
           IN  /\ d # 0 => InvFaults(N, 0, a, TRUE, "", <<inv>>) = {}
               /\ d # 0 => InvFaults(N, 0, a, TRUE, "", <<[inv EXCEPT ![N] = inv[N] + 2 * ONE]>>) # {}
               /\ d = 0 => InvFaults(N, 0, a, FALSE, "NotInversible", <<Fx10(a)>>) = {}
               /\ d = 0 => InvFaults(N, 0, a, TRUE, "", <<Fx16(Identity(N))>>) = {"accepted"}
JudgePred ==
  Fresh => LET x == Fx16(a)
               T(b) == IF b THEN "T" ELSE "F"
               exact == <<"T", T(Symmetric(a, N)), T(UpperT(a, N)), T(LowerT(a, N)), T(Orthogonal(a, N)),
                          T(Orthogonal(a, N) /\ Det(a, N) = 1), T(PositiveDefinite(a, N))>>
               flip(q) == [exact EXCEPT ![q] = IF exact[q] = "T" THEN "F" ELSE "T"]
           IN  /\ PredFaults(N, N, x, exact) = {}
               /\ \A q \in 1..6 : PredFaults(N, N, x, flip(q)) = {PredNames[q]}
JudgeQr ==
  (Fresh /\ Orthogonal(a, N)) =>
     /\ QrFaults(N, a, TRUE, <<Fx16(a), Fx16(Identity(N))>>) = {}
     /\ N > 1 => QrFaults(N, a, TRUE, <<Fx16(Identity(N)), Fx16(a)>>) = (IF UpperT(a, N) THEN {} ELSE {"shape"})
JudgeLup ==
  st = "done" =>
    LET packed == [q \in 1..(N * N) |->
          LET i == ((q - 1) \div N) + 1
              j == ((q - 1) % N) + 1
              \* row i of the packed factors is where row p[r] = i ended up
              r == CHOOSE y \in 1..N : p[y] = i
          IN  IF j < r THEN Div(At(m, N, r, j) * ONE, D(j) * ONE) ELSE Div(At(m, N, r, j) * ONE, D(r - 1) * ONE)]
        pv == [q \in 1..N |-> p[q] - 1]
    IN  /\ LupFaults(N, 0, a, TRUE, "", <<pv, packed>>) = {}
        /\ \A q \in 1..(N * N) : LupFaults(N, 0, a, TRUE, "", <<pv, [packed EXCEPT ![q] = @ + 4 * ONE]>>) # {}
===============================================================================
