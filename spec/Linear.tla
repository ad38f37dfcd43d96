------------------------------ MODULE Linear ------------------------------
(***************************************************************************)
(* Matrices over the field of integers modulo a prime m.  A matrix is a    *)
(* sequence of equally long rows; its entries are FieldOps numerals.       *)
(***************************************************************************)
EXTENDS FieldOps, Eval, TLC, FiniteSets, SequencesExt

Rows(A) == Len(A)
Cols(A) == Len(A[1])

\* row-major flattening and its inverse
Flat(A) == [k \in 1..(Rows(A) * Cols(A)) |-> A[((k - 1) \div Cols(A)) + 1][((k - 1) % Cols(A)) + 1]]
Shape(e, r, c) == [i \in 1..r |-> [j \in 1..c |-> e[(i - 1) * c + j]]]

Transpose(A) == [j \in 1..Cols(A) |-> [i \in 1..Rows(A) |-> A[i][j]]]
Identity(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN "1" ELSE "0"]]
ZeroMat(r, c) == [i \in 1..r |-> [j \in 1..c |-> "0"]]
MatMul(m, A, B) == [i \in 1..Rows(A) |-> FLin(m, A[i], B)]
MatAdd(m, A, B) == [i \in 1..Rows(A) |-> FVAdd(m, A[i], B[i])]
MatScale(m, c, A) == [i \in 1..Rows(A) |-> FVScale(m, c, A[i])]
Hadamard(m, A, B) == [i \in 1..Rows(A) |-> [j \in 1..Cols(A) |-> FMul(m, A[i][j], B[i][j])]]
RowOf(A, i) == <<A[i]>>
SetEntry(A, i, j, x) == [A EXCEPT ![i][j] = x]

\* the block splits of the Poseidon paper (p. 20): first row and column
\* without the corner, and the remaining block
SplitV(A) == <<[j \in 1..(Cols(A) - 1) |-> A[1][j + 1]]>>
SplitW(A) == [i \in 1..(Rows(A) - 1) |-> <<A[i + 1][1]>>]
SplitHat(A) == [i \in 1..(Rows(A) - 1) |-> [j \in 1..(Cols(A) - 1) |-> A[i + 1][j + 1]]]
\* block-diagonal matrix (1, H)
Border(H) == [i \in 1..(Rows(H) + 1) |-> [j \in 1..(Rows(H) + 1) |->
                IF i = 1 /\ j = 1 THEN "1" ELSE IF i = 1 \/ j = 1 THEN "0" ELSE H[i - 1][j - 1]]]

\* --- determinant ---------------------------------------------------------
\* Definition (Leibniz): used by the exhaustive configuration MC_Linear.
Perms(n) == {f \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => f[i] # f[j]}
Inversions(f, n) == Cardinality({ij \in (1..n) \X (1..n) : ij[1] < ij[2] /\ f[ij[1]] > f[ij[2]]})
RECURSIVE ProdPerm(_, _, _, _)
ProdPerm(m, A, f, i) == IF i = 0 THEN FRed(m, "1") ELSE FMul(m, A[i][f[i]], ProdPerm(m, A, f, i - 1))
RECURSIVE SumPerms(_, _, _, _)
SumPerms(m, A, n, S) ==
  IF S = {} THEN "0"
  ELSE LET f == CHOOSE f \in S : TRUE
           x == ProdPerm(m, A, f, n)
       IN FAdd(m, IF Inversions(f, n) % 2 = 0 THEN x ELSE FNeg(m, x), SumPerms(m, A, n, S \ {f}))
DetLeibniz(m, A) == SumPerms(m, A, Rows(A), Perms(Rows(A)))

\* Laplace expansion, row by row, over subsets of columns: D_k[S] is the
\* determinant of the first k rows restricted to the k columns S.
Below(S, j) == Cardinality({x \in S : x < j})
RECURSIVE AltSum(_, _, _, _, _, _)
\* expansion along row k of the columns S; column j is the (Below+1)-th of S
AltSum(m, row, k, S, T, prev) ==
  IF T = {} THEN "0"
  ELSE LET j == CHOOSE j \in T : TRUE
           x == FMul(m, row[j], prev[S \ {j}])
       IN FAdd(m, IF (k + Below(S, j) + 1) % 2 = 0 THEN x ELSE FNeg(m, x),
               AltSum(m, row, k, S, T \ {j}, prev))
LaplaceTable(m, A, k) ==
  FoldLeft(LAMBDA prev, i :
             Force([S \in {T \in SUBSET (1..Cols(A)) : Cardinality(T) = i} |->
                      AltSum(m, A[i], i, S, S, prev)]),
           ({} :> FRed(m, "1")), [i \in 1..k |-> i])
DetLaplace(m, A) == LaplaceTable(m, A, Rows(A))[1..Rows(A)]
\* Linear.java evaluates Det by elimination; LinearSelfTest compares all three
Det(m, A) == DetLaplace(m, A)

\* A without row i and column j
Strike(A, i, j) ==
  [r \in 1..(Rows(A) - 1) |-> [c \in 1..(Cols(A) - 1) |->
      A[IF r < i THEN r ELSE r + 1][IF c < j THEN c ELSE c + 1]]]
\* determinant of the empty matrix is 1
MinorAt(m, A, i, j) == IF Rows(A) = 1 THEN FRed(m, "1") ELSE Det(m, Force(Strike(A, i, j)))
Minors(m, A) == [i \in 1..Rows(A) |-> [j \in 1..Rows(A) |-> MinorAt(m, A, i, j)]]
Signs(m, n) == [i \in 1..n |-> [j \in 1..n |-> IF (i + j) % 2 = 0 THEN FRed(m, "1") ELSE FNeg(m, "1")]]

\* --- inverse by elimination ----------------------------------------------
Augment(A) == [i \in 1..Rows(A) |-> A[i] \o Identity(Rows(A))[i]]
\* one column; <<>> means a pivot is missing
EliminateColumn(m, B, n, k) ==
  IF B = <<>> THEN B
  ELSE LET cand == {r \in k..n : FRed(m, B[r][k]) # "0"} IN
       IF cand = {} THEN <<>>
       ELSE LET p == CHOOSE r \in cand : TRUE
                sw == Force([B EXCEPT ![k] = B[p], ![p] = B[k]])
                pr == Force(FVScale(m, FInv0(m, sw[k][k]), sw[k]))
            IN Force([r \in 1..n |-> IF r = k THEN pr
                        ELSE FVAdd(m, sw[r], FVScale(m, FNeg(m, sw[r][k]), pr))])
Reduced(m, A) ==
  FoldLeft(LAMBDA B, k : EliminateColumn(m, B, Rows(A), k), Force(Augment(A)), [k \in 1..Rows(A) |-> k])
Singular(m, A) == Reduced(m, A) = <<>>
InvMat(m, A) == LET R == Force(Reduced(m, A)) IN
                 [i \in 1..Rows(A) |-> SubSeq(R[i], Rows(A) + 1, 2 * Rows(A))]
=============================================================================
