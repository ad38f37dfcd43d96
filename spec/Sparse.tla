------------------------------ MODULE Sparse ------------------------------
(***************************************************************************)
(* Sparse linear forms: a sequence of pairs <<index, coefficient>>, sorted *)
(* by index, without zero coefficients.  Index 1 is the constant one.      *)
(* SLin is evaluated by Sparse.java; SparseSelfTest compares the two.      *)
(***************************************************************************)
EXTENDS FieldOps, FiniteSets, SequencesExt, TLC

CoefAt(f, i) == IF \E k \in 1..Len(f) : f[k][1] = i THEN f[CHOOSE k \in 1..Len(f) : f[k][1] = i][2] ELSE "0"
SLinDef(m, c, F) ==
  LET I == UNION {{F[k][j][1] : j \in 1..Len(F[k])} : k \in 1..Len(F)}
      S == SetToSortSeq(I, <)
      all == [k \in 1..Len(S) |-> <<S[k], FDot(m, c, [j \in 1..Len(F) |-> CoefAt(F[j], S[k])])>>]
  IN SelectSeq(all, LAMBDA p : p[2] # "0")
\* sum over k of c[k] * F[k]
SLin(m, c, F) == SLinDef(m, c, F)

SConst(x) == IF x = "0" THEN <<>> ELSE << <<1, x>> >>
SVar(i) == << <<i, "1">> >>
SAddConst(m, f, x) == SLin(m, <<"1", "1">>, <<f, SConst(x)>>)
IsConst(f) == f = <<>> \/ (Len(f) = 1 /\ f[1][1] = 1)
ConstOf(f) == IF f = <<>> THEN "0" ELSE f[1][2]
=============================================================================
