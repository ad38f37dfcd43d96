------------------------------ MODULE Program ------------------------------
(***************************************************************************)
(* Programs of field operations, recorded from the running code: a         *)
(* register machine whose registers 1..t are the input words and whose     *)
(* k-th operation writes register t+k.  An operand is a register or a      *)
(* constant.  A program recorded without looks at its data (Observe.tla)   *)
(* is what the code does on every input.                                   *)
(*                                                                         *)
(* The machine runs on meanings instead of values: sparse linear forms     *)
(* over atoms (the input words, powers of forms, products), or a power     *)
(* itself.  Two registers of equal meaning hold equal values for every     *)
(* input.                                                                  *)
(***************************************************************************)
EXTENDS Soundness

PStart(t) == [M |-> [atoms |-> <<<<"one">>>> \o [k \in 1..t |-> <<"op", k>>], bases |-> <<>>],
              R |-> [k \in 1..t |-> [k |-> "f", f |-> SVar(1 + k)]]]
Operand(Z, k, x) == IF k = 0 THEN [k |-> "f", f |-> SConst(x)] ELSE Z.R[x]
\* [M, f]: the linear form of a meaning
PForm(M, r) == IF r.k = "f" THEN [M |-> M, f |-> r.f]
               ELSE LET a == AtomOf(M, <<"pow", r.b, r.e>>) IN [M |-> a.M, f |-> SVar(a.k)]
\* [M, b, e]: base and exponent of a meaning that is not constant
PPower(M, r) ==
  IF r.k = "p" THEN [M |-> M, b |-> r.b, e |-> r.e]
  ELSE IF Len(r.f) = 1 /\ r.f[1][2] = "1" /\ M.atoms[r.f[1][1]][1] = "pow"
       THEN [M |-> M, b |-> M.atoms[r.f[1][1]][2], e |-> M.atoms[r.f[1][1]][3]]
       ELSE LET q == BaseOf(M, r.f) IN [M |-> q.M, b |-> q.k, e |-> "1"]
ConstMeaning(r) == IF r.k = "p" THEN FALSE ELSE IsConst(r.f)
\* [M, r]: meaning of a combination c1*r1 + c2*r2
PLin(m, M, c, r1, r2) ==
  LET x == PForm(M, r1) y == PForm(x.M, r2) IN
  [M |-> y.M, r |-> [k |-> "f", f |-> SLin(m, c, <<x.f, y.f>>)]]
PMul(m, M, r1, r2) ==
  IF ConstMeaning(r1) /\ r1.k = "f"
  THEN IF ConstOf(r1.f) = "1" THEN [M |-> M, r |-> r2]
       ELSE LET y == PForm(M, r2) IN [M |-> y.M, r |-> [k |-> "f", f |-> SLin(m, <<ConstOf(r1.f)>>, <<y.f>>)]]
  ELSE LET x == PPower(M, r1) y == PPower(x.M, r2) IN
       IF x.b = y.b THEN [M |-> y.M, r |-> [k |-> "p", b |-> x.b, e |-> IAdd(x.e, y.e)]]
       ELSE LET lo == IF x.b < y.b THEN x ELSE y
                hi == IF x.b < y.b THEN y ELSE x
                a == AtomOf(y.M, <<"prod", lo.b, lo.e, hi.b, hi.e>>)
            IN [M |-> a.M, r |-> [k |-> "f", f |-> SVar(a.k)]]
\* one operation <<name, kind a, a, kind b, b>>
PStep(m, Z, o) ==
  LET a == Operand(Z, o[2], o[3])
      b == Operand(Z, o[4], o[5])
      x == CASE o[1] = "add" -> PLin(m, Z.M, <<"1", "1">>, a, b)
             [] o[1] = "sub" -> PLin(m, Z.M, <<"1", FNeg(m, "1")>>, a, b)
             [] o[1] = "neg" -> LET y == PForm(Z.M, a) IN [M |-> y.M, r |-> [k |-> "f", f |-> SLin(m, <<FNeg(m, "1")>>, <<y.f>>)]]
             [] o[1] = "mul" -> IF ConstMeaning(b) THEN PMul(m, Z.M, b, a) ELSE PMul(m, Z.M, a, b)
             [] o[1] = "inv" -> LET y == PPower(Z.M, a) q == AtomOf(y.M, <<"inv", y.b, y.e>>)
                                IN [M |-> q.M, r |-> [k |-> "f", f |-> SVar(q.k)]]
  IN [M |-> x.M, R |-> Append(Z.R, Force(x.r))]
\* the program from atoms M: [M, s], the meanings of the output words as forms
PRun(m, M, t, ops, outs) ==
  LET S == PStart(t)
      Z == FoldLeft(LAMBDA Z, o : PStep(m, Z, o), [S EXCEPT !.M = M], ops)
  IN FoldLeft(LAMBDA Y, o : LET x == PForm(Y.M, Operand(Z, o[1], o[2])) IN [M |-> x.M, s |-> Append(Y.s, x.f)],
              [M |-> Z.M, s |-> <<>>], outs)
\* --- a schedule on meanings ---------------------------------------------------
\* e: a numeral, or "inv" for the inverse S-box
PSbox(m, e, Z, i) ==
  IF e # "inv" THEN ESbox(m, e, Z, i)
  ELSE IF IsConst(Z.s[i]) THEN [Z EXCEPT !.s[i] = SConst(FInv0(m, ConstOf(@)))]
  ELSE LET y == PPower(Z.M, [k |-> "f", f |-> Z.s[i]]) a == AtomOf(y.M, <<"inv", y.b, y.e>>)
       IN [M |-> a.M, s |-> [Z.s EXCEPT ![i] = SVar(a.k)]]
PLayer(m, e, Z, L) ==
  LET t == Len(Z.s) IN
  CASE L.k \in {"arc", "mat"} -> ELayer(m, e, Z, L)
    [] L.k = "add0" -> [Z EXCEPT !.s[1] = SAddConst(m, @, L.c)]
    [] L.k = "sparse" -> [Z EXCEPT !.s = [i \in 1..t |-> IF i = 1 THEN SLin(m, <<L.a>> \o L.w, @)
                                            ELSE SLin(m, <<"1", L.v[i - 1]>>, <<@[i], @[1]>>)]]
    [] L.k = "full" -> FoldLeft(LAMBDA Y, i : PSbox(m, e, Y, i), Z, [i \in 1..t |-> i])
    [] L.k = "part" -> PSbox(m, e, Z, 1)
PSchedule(m, e, sched, M, s) == FoldLeft(LAMBDA Z, L : Force(PLayer(m, e, Z, L)), [M |-> M, s |-> s], sched)
Words(t) == [k \in 1..t |-> SVar(1 + k)]
\* --- is what a program computes a bijection? ----------------------------------
\* Forms F over atoms are undone from the back: the latest atom among them, a power
\* whose exponent is coprime to m-1, must be recoverable from F alone; its base then
\* takes its place.  What remains are forms over the input words, which must be
\* independent.  TRUE proves a bijection for every input; FALSE says nothing.
Lead(f) == LET k == IF f[1][1] = 1 THEN 2 ELSE 1 IN f[k]                  \* of a form that is not constant
PSweep(m, E, f) == FoldLeft(LAMBDA g, h : LET c == CoefAt(g, Lead(h)[1]) IN
                              IF c = "0" THEN g ELSE Force(SLin(m, <<"1", FNeg(m, FMul(m, c, FInv0(m, Lead(h)[2])))>>, <<g, h>>)), f, E)
\* echelon form; <<>> when the forms are dependent (up to constants)
PEchelon(m, F) ==
  FoldLeft(LAMBDA Z, f : IF ~Z.ok THEN Z ELSE LET g == PSweep(m, Z.e, f) IN IF IsConst(g) THEN [ok |-> FALSE, e |-> <<>>] ELSE [ok |-> TRUE, e |-> Append(Z.e, g)],
           [ok |-> TRUE, e |-> <<>>], F)
RECURSIVE Undoes(_, _, _)
Undoes(m, M, F) ==
  LET I == UNION {{F[k][j][1] : j \in 1..Len(F[k])} : k \in 1..Len(F)} \ {1} IN
  IF I = {} THEN FALSE
  ELSE
  LET a == CHOOSE x \in I : \A y \in I : y <= x IN
  IF M.atoms[a][1] = "op" THEN PEchelon(m, F).ok
  ELSE IF M.atoms[a][1] # "pow" THEN FALSE
  ELSE IF IGcd(M.atoms[a][3], ISub(m, "1")) # "1" THEN FALSE
  ELSE LET r == CHOOSE k \in 1..Len(F) : CoefAt(F[k], a) # "0"
           c == CoefAt(F[r], a)
           others == [k \in 1..(Len(F) - 1) |-> LET f == F[IF k < r THEN k ELSE k + 1] d == CoefAt(f, a) IN
                        Force(SLin(m, <<"1", FNeg(m, FMul(m, d, FInv0(m, c)))>>, <<f, F[r]>>))]
           E == PEchelon(m, others)
           left == PSweep(m, E.e, SelectSeq(F[r], LAMBDA p : p[1] # a))
       IN IF E.ok /\ IsConst(left) THEN Undoes(m, M, Force(Append(others, M.bases[M.atoms[a][2]]))) ELSE FALSE
=============================================================================
