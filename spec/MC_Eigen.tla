-------------------------------- MODULE MC_Eigen -------------------------------
(***************************************************************************)
(* The iteration A -> R Q (A = Q R) on every small symmetric integer        *)
(* matrix, in the form V -> orthogonal factor of A V, which has the same    *)
(* rotations and does not accumulate rounding.  V holds the eigenvectors    *)
(* when what V^T A V has beside the diagonal has vanished: the judgement of *)
(* an eigen-decomposition accepts the state of the iteration then, and      *)
(* rejects it before.  Where magnitudes differ clearly the iteration        *)
(* arrives.  Every step is printed as a call to be replayed.               *)
(***************************************************************************)
EXTENDS Linalg

CONSTANTS N, M, STEPS

VARIABLES a,    \* the original matrix, <<>> before it is chosen
          k,    \* steps taken
          s, v  \* iterated matrix and rotation to it, fixed point
vars == <<a, k, s, v>>

Fixed(x) == TLCEval([j \in DOMAIN x |-> x[j] * ONE])
Eye == Fixed(Identity(N))
Matrices == {x \in [1..(N * N) -> (-M)..M] : Symmetric(x, N)}

\* Plane rotation <<c, s>> of rows p < q that clears entry (q, p).
Plane(x, p, q) ==
  LET y == At(x, N, p, p)
      z == At(x, N, q, p)
      h == NormFx(<<y, z>>)
  IN  IF z = 0 \/ h = 0 THEN <<ONE, 0>> ELSE <<Div(y, h), Div(z, h)>>
RowsTurned(x, p, q, g) == Mat(N, LAMBDA i, j :
  IF i = p THEN Mul(g[1], At(x, N, p, j)) + Mul(g[2], At(x, N, q, j))
  ELSE IF i = q THEN Mul(g[1], At(x, N, q, j)) - Mul(g[2], At(x, N, p, j))
  ELSE At(x, N, i, j))
Pairs == {<<p, q>> \in (1..N) \X (1..N) : p < q}
\* Column by column, top to bottom.
Order == TLCEval(CHOOSE o \in [1..((N * (N - 1)) \div 2) -> Pairs] :
           \A i, j \in DOMAIN o : i < j => (o[i][1] < o[j][1] \/ (o[i][1] = o[j][1] /\ o[i][2] < o[j][2])))
RECURSIVE Factor(_, _, _)
Factor(r, qt, i) ==
  IF i > Len(Order) THEN <<qt, r>>
  ELSE LET p == Order[i][1]
           q == Order[i][2]
           g == TLCEval(Plane(r, p, q))
       IN  Factor(RowsTurned(r, p, q, g), RowsTurned(qt, p, q, g), i + 1)
MulFx(x, y) == Mat(N, LAMBDA i, j : ProdFx(x, y, N, i, j))
\* The original matrix times a fixed-point one.
Applied(x) == Mat(N, LAMBDA i, j : Sum([m \in 1..N |-> At(a, N, i, m) * At(x, N, m, j)]))

Code == IF a = <<>> THEN <<0, 0>> ELSE <<Sum([j \in 1..(N * N) |-> (a[j] + M) * (2 * M + 1)^(j - 1)]) + 1, k>>
CodeOf(x, j) == <<Sum([i \in 1..(N * N) |-> (x[i] + M) * (2 * M + 1)^(i - 1)]) + 1, j>>
Emit(x, niter, shifted, dst) == PrintT(<<"EDGE", Code, "eigen", <<N, 0>> \o x \o <<niter, shifted>>, <<>>, dst>>)

Init == a = <<>> /\ k = 0 /\ s = <<>> /\ v = <<>>
Choose ==
  /\ a = <<>>
  /\ \E x \in Matrices :
       /\ a' = x /\ k' = 0 /\ s' = Fixed(x) /\ v' = Eye
       /\ Emit(x, 0, 0, CodeOf(x, 0))
Iterate ==
  /\ a # <<>> /\ k < STEPS
  /\ LET q == Transpose(Factor(Applied(v), Eye, 1)[1], N)
     IN  v' = q /\ s' = MulFx(Transpose(q, N), Applied(q))
  /\ k' = k + 1
  /\ Emit(a, k + 1, 0, CodeOf(a, k + 1))
  /\ UNCHANGED a
Shifted ==
  /\ a # <<>> /\ k \in {1, 8, STEPS}
  /\ Emit(a, k, 1, Code)
  /\ UNCHANGED vars
Long ==
  /\ a # <<>> /\ k = STEPS
  /\ Emit(a, 400, 0, Code)
  /\ Emit(a, 400, 1, Code)
  /\ UNCHANGED vars
Next == Choose \/ Iterate \/ Shifted \/ Long
Spec == Init /\ [][Next]_vars

On == a # <<>>
Diag == TLCEval([i \in 1..N |-> At(s, N, i, i)])
Beside == LET S == {Abs(At(s, N, p[1], p[2])) : p \in Pairs} \cup {0} IN CHOOSE x \in S : \A y \in S : y <= x
Slack == 64
TraceKept == On => Near(Sum(Diag), ONE * Sum([i \in 1..N |-> At(a, N, i, i)]), Slack)
StaysSymmetric == On => \A i, j \in 1..N : Near(At(s, N, i, j), At(s, N, j, i), Slack)
RotationsKept == On => NearV(MulFx(Transpose(v, N), v), Eye, Slack)
Similar == On => NearV(MulFx(v, s), Applied(v), 2 * Slack)

Faults(lam, vec) == EigenFaults(N, a, STEPS, 0, <<>>, TRUE, "", <<lam, vec>>)
\* Accepted when converged and only then, up to the accuracy granted to the library.
JudgeGood == On /\ Beside <= 64 => Faults(Diag, v) = {}
JudgeBad == On /\ Beside >= 64 * (Frob(a) + 16) => Faults(Diag, v) # {}
\* Eigenvalues in another order than the vectors, or a vector that is too long, are not accepted.
JudgeOrder ==
  On /\ Beside <= 64 /\ Abs(Diag[1] - Diag[2]) > 64 * (2 * Frob(a) + 16) =>
    Faults([i \in 1..N |-> IF i = 1 THEN Diag[2] ELSE IF i = 2 THEN Diag[1] ELSE Diag[i]], v) # {}
JudgeUnit == On => "unit" \in Faults(Diag, [j \in 1..(N * N) |-> v[j] + v[j] \div 64])

\* Two by two: eigenvalues (t +- root) / 2; the ratio of magnitudes decides about arriving.
Tr == a[1] + a[4]
Disc == (a[1] - a[4]) * (a[1] - a[4]) + 4 * a[2] * a[3]
Clear == LET r == Sqrt(Disc * 256) \div 16          \* scale 2^12
             x == Abs(4096 * Tr + 16 * r)
             y == Abs(4096 * Tr - 16 * r)
         IN  10 * MaxI(x, y) > 0 /\ 10 * (IF x < y THEN x ELSE y) <= 7 * MaxI(x, y)
Arrives == On /\ N = 2 /\ k = STEPS /\ Clear => Beside <= 64
===============================================================================
