-------------------------- MODULE ProgramSelfTest --------------------------
(***************************************************************************)
(* Meanings and Undoes against brute force over the field of 7 elements:   *)
(* registers of equal meaning hold equal values on every input, and a      *)
(* program Undoes accepts is injective.  Programs are drawn.               *)
(***************************************************************************)
EXTENDS Program, Inputs
VARIABLES w, got
M7 == "7"
F7 == {HexOf(k) : k \in 0..6}
Pick(k, a, b, c) == RndBelow(k, 81000 + a, b, c)
\* state: program so far and the registers of the two words
Emit(Z, o) == [ops |-> Append(Z.ops, o), s |-> Z.s, last |-> 2 + Len(Z.ops) + 1]
Keep(Z, i) == [Z EXCEPT !.s[i] = Z.last]
\* word i := word i to the e
RECURSIVE Power(_, _, _, _)
Power(Z, i, base, e) == IF e = 1 THEN Z ELSE LET Y == Keep(Emit(Z, <<"mul", 1, Z.s[i], 1, base>>), i) IN Power(Y, i, base, e - 1)
MacroStep(Z, a, b) ==
  LET q == Pick(9, a, b, 0) i == 1 + Pick(2, a, b, 1) j == 3 - i c == HexOf(1 + Pick(6, a, b, 2)) IN
  CASE q \in {0, 1} -> LET Y == Emit(Z, <<"mul", 0, c, 1, Z.s[j]>>) IN Keep(Emit(Y, <<"add", 1, Y.s[i], 1, Y.last>>), i)
    [] q = 2 -> Keep(Emit(Z, <<"add", 1, Z.s[i], 0, c>>), i)
    [] q \in {3, 4} -> Power(Z, i, Z.s[i], 5)
    [] q = 5 -> Power(Z, i, Z.s[i], 1 + Pick(6, a, b, 3))
    [] q = 6 -> Keep(Emit(Z, <<IF Pick(2, a, b, 4) = 0 THEN "mul" ELSE "sub", 1, Z.s[i], 1, Z.s[j]>>), i)
    [] q = 7 -> Keep(Emit(Z, IF Pick(3, a, b, 5) = 0 THEN <<"inv", 1, Z.s[i], 1, Z.s[i]>> ELSE <<"neg", 1, Z.s[i], 1, Z.s[i]>>), i)
    [] q = 8 -> IF Pick(6, a, b, 6) = 0 THEN [Z EXCEPT !.s[i] = @[1]] ELSE [Z EXCEPT !.s = <<Z.s[2], Z.s[1]>>]
Safe(Z, a, b) == IF Pick(9, a, b, 0) = 8 /\ Pick(6, a, b, 6) = 0 THEN [Z EXCEPT !.s[2] = Z.s[1]] ELSE MacroStep(Z, a, b)
Draw(a) == FoldLeft(LAMBDA Z, b : Force(Safe(Z, a, b)), [ops |-> <<>>, s |-> <<1, 2>>, last |-> 1], [b \in 1..(3 + Pick(10, a, 0, 7)) |-> b])
Outs(Z) == << <<1, Z.s[1]>>, <<1, Z.s[2]>> >>
\* values
Arg(Q, k, x) == IF k = 0 THEN x ELSE Q[x]
Calc(Q, o) ==
  LET x == Arg(Q, o[2], o[3]) y == Arg(Q, o[4], o[5]) IN
  Append(Q, CASE o[1] = "add" -> FAdd(M7, x, y) [] o[1] = "sub" -> FSub(M7, x, y) [] o[1] = "mul" -> FMul(M7, x, y)
              [] o[1] = "neg" -> FNeg(M7, x) [] o[1] = "inv" -> FInv0(M7, x))
Hold(Z, x) == FoldLeft(LAMBDA Q, o : Calc(Q, o), x, Z.ops)
Judge(a) ==
  LET Z == Force(Draw(a))
      A == F7 \X F7
      V == Force([x \in A |-> Hold(Z, x)])
      T == FoldLeft(LAMBDA Y, o : Force(PStep(M7, Y, o)), PStart(2), Z.ops)
      G == FoldLeft(LAMBDA Y, r : LET f == PForm(Y.M, r) IN [M |-> f.M, F |-> Append(Y.F, f.f)], [M |-> T.M, F |-> <<>>], T.R)
      N == 1..Len(T.R)
      und == LET x == PRun(M7, PStart(2).M, 2, Z.ops, Outs(Z)) IN Undoes(M7, x.M, x.s)
      inj == Cardinality({<<V[x][Z.s[1]], V[x][Z.s[2]]>> : x \in A}) = 49
  IN [meaning |-> \A i, j \in N : G.F[i] = G.F[j] => \A x \in A : V[x][i] = V[x][j], undoes |-> und, injective |-> inj]
Init == w \in 1..(IF IOEnv.VERIF_TIER = "thorough" THEN 3000 ELSE 300) /\ got = [meaning |-> TRUE, undoes |-> FALSE, injective |-> FALSE]
Next == UNCHANGED w /\ got.undoes = FALSE /\ got.injective = FALSE /\ got' = Force(Judge(w))
Right == got.meaning /\ (got.undoes => got.injective)
=============================================================================
