------------------------------ MODULE Derive ------------------------------
(***************************************************************************)
(* How a Poseidon-377 instance is derived from (security level, width,     *)
(* modulus): matrices, round constants and the Appendix B optimization.    *)
(***************************************************************************)
EXTENDS Poseidon, Merlin

\* --- round constants -------------------------------------------------------
\* alpha is given by its four little-endian bytes
DomainSeparated(M, t, p, pBytes, rF, rP, alphaLE) ==
  LET a == TranscriptNew(Ascii("round-constants"))
      b == AppendMessage(a, Ascii("dom-sep"), Ascii("poseidon-paramgen"))
      c == AppendMessage(b, Ascii("t"), LE8(t))
      d == AppendMessage(c, Ascii("M"), LE8(M))
      f == AppendMessage(d, Ascii("p"), ToLE(p, pBytes))
      g == AppendMessage(f, Ascii("r_F"), <<rF % 256>>)
      h == AppendMessage(g, Ascii("r_P"), <<rP % 256>>)
  IN AppendMessage(h, Ascii("alpha"), alphaLE)

ChallengeLen(p) == (IBits(p) + 135) \div 8
SqueezeConstant(Z, p) ==
  LET c == Challenge(Z.t, Ascii("round-constant"), ChallengeLen(p))
  IN [t |-> c.t, out |-> Append(Z.out, FRed(p, FromLE(c.out)))]
SqueezeConstants(S, p, n) ==
  FoldLeft(LAMBDA Z, i : Force(SqueezeConstant(Z, p)), [t |-> S, out |-> <<>>], [i \in 1..n |-> i]).out

RoundConstants(M, t, p, pBytes, rF, rP, alphaLE) ==
  Shape(Force(SqueezeConstants(DomainSeparated(M, t, p, pBytes, rF, rP, alphaLE), p, (rF + rP) * t)), rF + rP, t)

\* --- mixing matrix: the fixed Cauchy matrix 1/(x_i + y_j), x = 0.., y = t.. --
Cauchy(p, t) == [i \in 1..t |-> [j \in 1..t |-> FInv0(p, HexOf((i - 1) + (t + j - 1)))]]

\* every square submatrix nonsingular
IsMDS(p, A) ==
  LET n == Rows(A)
      \* determinants of all submatrices on the first k rows of a row choice:
      Sub(Rs, Cs) ==
        LET rs == [k \in 1..Cardinality(Rs) |-> CHOOSE r \in Rs : Below(Rs, r) = k - 1]
            cs == [k \in 1..Cardinality(Cs) |-> CHOOSE c \in Cs : Below(Cs, c) = k - 1]
        IN [i \in 1..Len(rs) |-> [j \in 1..Len(cs) |-> A[rs[i]][cs[j]]]]
  IN \A Rs \in (SUBSET (1..n)) \ {{}} :
       LET k == Cardinality(Rs)
           rs == Force([i \in 1..k |-> CHOOSE r \in Rs : Below(Rs, r) = i - 1])
           B == Force([i \in 1..n |-> IF i <= k THEN A[rs[i]] ELSE A[1]])
           T == Force(LaplaceTable(p, B, k))
       IN \A Cs \in DOMAIN T : T[Cs] # "0"

\* --- Appendix B --------------------------------------------------------------
\* constants: push each partial round's constants of words 2..t backwards
\* through the mixing layer (rows are row vectors; M^T acts on them)
PushBack(p, c, minvT, r) ==
  LET inv == Force(FLin(p, c[r + 1], minvT))
      n == Len(inv)
  IN Force([c EXCEPT
       ![r] = [j \in 1..n |-> IF j = 1 THEN c[r][1] ELSE FAdd(p, c[r][j], inv[j])],
       ![r + 1] = [j \in 1..n |-> IF j = 1 THEN inv[1] ELSE "0"]])
OptConstants(p, arc, mds, rF, rP) ==
  LET h == rF \div 2
      minvT == Force(InvMat(p, Force(Transpose(mds))))
      last == rF + rP - 1 - h
  IN FoldLeft(LAMBDA c, i : PushBack(p, c, minvT, last + 1 - i), arc, [i \in 1..(last - h) |-> i])

\* matrices: factor the dense matrix of each partial round
Factor(p, MT, Z) ==
  LET H == Force(SplitHat(Z.Mmul))
      w == Force(SplitW(Z.Mmul))
      Mi == Force(Border(H))
  IN [Mmul |-> MatMul(p, MT, Mi), Mi |-> Mi,
      v |-> Append(Z.v, SplitV(Z.Mmul)[1]),
      what |-> Append(Z.what, Transpose(MatMul(p, Force(InvMat(p, H)), w))[1])]
OptMatrices(p, mds, rP) ==
  LET MT == Force(Transpose(mds))
      Z == FoldLeft(LAMBDA z, i : Force(Factor(p, MT, z)),
                    [Mmul |-> MT, Mi |-> Border(Force(SplitHat(MT))), v |-> <<>>, what |-> <<>>],
                    [i \in 1..rP |-> i])
  IN [Mi |-> Transpose(Z.Mi), v |-> Z.v, what |-> Z.what]

\* M = M' * M'' (Equation 7)
MDoublePrime(p, mds) ==
  LET n == Rows(mds)
      wh == Force(MatMul(p, Force(InvMat(p, Force(SplitHat(mds)))), SplitW(mds)))
  IN [i \in 1..n |-> [j \in 1..n |->
        IF i = 1 THEN mds[1][j] ELSE IF j = 1 THEN wh[i - 1][1] ELSE IF i = j THEN "1" ELSE "0"]]

\* the whole optimized part implied by a base part
Optimized(p, mds, arc, rF, rP) ==
  LET f == Force(OptMatrices(p, mds, rP)) IN
  [oarc |-> OptConstants(p, arc, mds, rF, rP),
   Mi |-> f.Mi, v |-> f.v, what |-> f.what, m00 |-> mds[1][1],
   Mhat |-> SplitHat(mds), vv |-> SplitV(mds), ww |-> SplitW(mds),
   Mprime |-> Border(SplitHat(mds)), Mdoubleprime |-> MDoublePrime(p, mds),
   Minverse |-> InvMat(p, mds), Mhatinverse |-> InvMat(p, Force(SplitHat(mds)))]
=============================================================================
