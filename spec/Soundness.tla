----------------------------- MODULE Soundness -----------------------------
(***************************************************************************)
(* Does an emitted constraint system leave the hash any freedom?           *)
(*                                                                         *)
(* A machine reads the recorded constraints and gives each witness its     *)
(* meaning: the values of the operands (public inputs and allocated        *)
(* witnesses) are known; a constraint A*B = C in which one variable is not *)
(* yet known determines it when that variable stands alone in C, or        *)
(* linearly beside a nonzero constant factor.  Meanings are kept           *)
(* symbolically, over atoms:                                               *)
(*    1                the constant                                        *)
(*    operand          an operand's value                                  *)
(*    <<"pow", b, e>>  the e-th power of the linear form bases[b]          *)
(*    <<"prod", f, g>> any other product                                   *)
(* so a determined output has a meaning that holds for every assignment.   *)
(* Meaning of a known variable: [b, e] (a power) or [f] (a sparse form     *)
(* over atoms).                                                            *)
(***************************************************************************)
EXTENDS Poseidon, Sparse

\* machine state: val (known variables), atoms, bases, and the rows left
AStart(ops) ==        \* ops: operand variables, in order
  [val |-> [v \in {1} \cup {ops[k] : k \in 1..Len(ops)} |->
              IF v = 1 THEN SConst("1") ELSE SVar(1 + CHOOSE k \in 1..Len(ops) : ops[k] = v)],
   pow |-> <<>>,      \* variable -> <<base, exponent>>, for powers not yet used in a sum
   atoms |-> <<<<"one">>>> \o [k \in 1..Len(ops) |-> <<"op", ops[k]>>],
   bases |-> <<>>]

Find(q, x) == IF \E k \in 1..Len(q) : q[k] = x THEN CHOOSE k \in 1..Len(q) : q[k] = x ELSE 0
\* atom number of a; adds it when new: [M, k]
AtomOf(M, a) == LET k == Find(M.atoms, a) IN
  IF k # 0 THEN [M |-> M, k |-> k] ELSE [M |-> [M EXCEPT !.atoms = Append(@, a)], k |-> Len(M.atoms) + 1]
BaseOf(M, f) == LET k == Find(M.bases, f) IN
  IF k # 0 THEN [M |-> M, k |-> k] ELSE [M |-> [M EXCEPT !.bases = Append(@, f)], k |-> Len(M.bases) + 1]

Knows(M, v) == v \in DOMAIN M.val \/ v \in DOMAIN M.pow
\* the form of a known variable; a power becomes an atom
FormOf(M, v) ==
  IF v \in DOMAIN M.val THEN [M |-> M, f |-> M.val[v]]
  ELSE LET a == AtomOf(M, <<"pow">> \o M.pow[v]) IN [M |-> a.M, f |-> SVar(a.k)]
\* [M, f] for a sparse form over known variables
EvalForm(m, M, lc) ==
  LET Z == FoldLeft(LAMBDA Z, t : LET r == FormOf(Z.M, t[1]) IN [M |-> r.M, F |-> Append(Z.F, r.f)],
                    [M |-> M, F |-> <<>>], lc)
  IN [M |-> Z.M, f |-> SLin(m, [k \in 1..Len(lc) |-> lc[k][2]], Z.F)]
IsPower(M, lc) == Len(lc) = 1 /\ lc[1][2] = "1" /\ lc[1][1] \in DOMAIN M.pow
\* base and exponent of a nonconstant factor
FactorOf(m, M, lc) ==
  IF IsPower(M, lc) THEN [M |-> M, c |-> FALSE, b |-> M.pow[lc[1][1]][1], e |-> M.pow[lc[1][1]][2]]
  ELSE LET r == EvalForm(m, M, lc) IN
       IF IsConst(r.f) THEN [M |-> r.M, c |-> TRUE, x |-> ConstOf(r.f)]
       ELSE IF Len(r.f) = 1 /\ r.f[1][2] = "1" /\ r.M.atoms[r.f[1][1]][1] = "pow"
            THEN [M |-> r.M, c |-> FALSE, b |-> r.M.atoms[r.f[1][1]][2], e |-> r.M.atoms[r.f[1][1]][3]]
            ELSE LET q == BaseOf(r.M, r.f) IN [M |-> q.M, c |-> FALSE, b |-> q.k, e |-> "1"]
\* the product of two forms over variables: [M, p (a power?), b, e, f]
Product(m, M, A, B) ==
  LET x == FactorOf(m, M, A) y == FactorOf(m, x.M, B) IN
  IF x.c \/ y.c
  THEN LET g == EvalForm(m, y.M, IF x.c THEN B ELSE A)
       IN [M |-> g.M, p |-> FALSE, f |-> SLin(m, <<IF x.c THEN x.x ELSE y.x>>, <<g.f>>)]
  ELSE IF x.b = y.b THEN [M |-> y.M, p |-> TRUE, b |-> x.b, e |-> IAdd(x.e, y.e)]
  ELSE LET a == AtomOf(y.M, <<"prod", x.b, x.e, y.b, y.e>>) IN [M |-> a.M, p |-> FALSE, f |-> SVar(a.k)]

Vars(lc) == {lc[k][1] : k \in 1..Len(lc)}
Without(lc, v) == SelectSeq(lc, LAMBDA t : t[1] # v)
SetVal(M, v, f) == [M EXCEPT !.val = (v :> f) @@ @]
\* one constraint: [M, done]; done = the row needs no further look
Use(m, M, r) ==
  LET A == r[1] B == r[2] C == r[3]
      U == {v \in Vars(A) \cup Vars(B) \cup Vars(C) : ~Knows(M, v)}
  IN IF U = {} THEN [M |-> M, done |-> TRUE]
     ELSE IF Cardinality(U) > 1 THEN [M |-> M, done |-> FALSE]
     ELSE LET v == CHOOSE v \in U : TRUE
              inA == v \in Vars(A) inB == v \in Vars(B)
          IN IF ~inA /\ ~inB
             THEN LET p == Product(m, M, A, B) IN
                  IF p.p /\ C = SVar(v) THEN [M |-> [p.M EXCEPT !.pow = (v :> <<p.b, p.e>>) @@ @], done |-> TRUE]
                  ELSE LET pf == IF p.p THEN LET a == AtomOf(p.M, <<"pow", p.b, p.e>>) IN [M |-> a.M, f |-> SVar(a.k)] ELSE [M |-> p.M, f |-> p.f]
                           rest == EvalForm(m, pf.M, Without(C, v))
                           ic == FInv0(m, CoefAt(C, v))
                       IN [M |-> SetVal(rest.M, v, SLin(m, <<ic, FNeg(m, ic)>>, <<pf.f, rest.f>>)), done |-> TRUE]
             ELSE IF inA /\ inB THEN [M |-> M, done |-> FALSE]
             ELSE LET K == EvalForm(m, M, IF inA THEN B ELSE A)
                      Lin == IF inA THEN A ELSE B
                  IN IF ~IsConst(K.f) THEN [M |-> M, done |-> FALSE]
                     ELSE LET k == ConstOf(K.f)
                              d == FSub(m, FMul(m, k, CoefAt(Lin, v)), CoefAt(C, v))
                          IN IF d = "0" THEN [M |-> M, done |-> FALSE]
                             ELSE LET l == EvalForm(m, K.M, Without(Lin, v))
                                      c == EvalForm(m, l.M, Without(C, v))
                                      id == FInv0(m, d)
                                  IN [M |-> SetVal(c.M, v, SLin(m, <<id, FNeg(m, FMul(m, id, k))>>, <<c.f, l.f>>)), done |-> TRUE]

\* one pass over the rows left: Z = [M, left]
Pass(m, M, rows) ==
  FoldLeft(LAMBDA Z, r : LET u == Force(Use(m, Z.M, r)) IN
             Force([M |-> u.M, left |-> IF u.done THEN Z.left ELSE Append(Z.left, r)]),
           [M |-> M, left |-> <<>>], rows)

\* the hash the operands' meanings call for, over the same atoms
ESbox(m, e, Z, i) ==
  IF e = "1" THEN Z
  ELSE IF IsConst(Z.s[i]) THEN [Z EXCEPT !.s[i] = SConst(FPow(m, ConstOf(Z.s[i]), e))]
  ELSE LET s1 == Len(Z.s[i]) = 1 /\ Z.s[i][1][2] = "1" /\ Z.M.atoms[Z.s[i][1][1]][1] = "pow"
           q == IF s1 THEN [M |-> Z.M, k |-> Z.M.atoms[Z.s[i][1][1]][2], e |-> Z.M.atoms[Z.s[i][1][1]][3]]
                ELSE BaseOf(Z.M, Z.s[i]) @@ [e |-> "1"]
           a == AtomOf(q.M, <<"pow", q.k, IMul(q.e, e)>>)
       IN [M |-> a.M, s |-> [Z.s EXCEPT ![i] = SVar(a.k)]]
ELayer(m, e, Z, L) ==
  CASE L.k = "arc" -> [Z EXCEPT !.s = [i \in 1..Len(@) |-> SAddConst(m, @[i], L.c[i])]]
    [] L.k = "mat" -> [Z EXCEPT !.s = [i \in 1..Len(@) |-> SLin(m, L.M[i], @)]]
    [] L.k = "full" -> FoldLeft(LAMBDA Y, i : ESbox(m, e, Y, i), Z, [i \in 1..Len(Z.s) |-> i])
    [] L.k = "part" -> ESbox(m, e, Z, 1)
EHash(m, e, sched, M, s) == FoldLeft(LAMBDA Z, L : Force(ELayer(m, e, Z, L)), [M |-> M, s |-> s], sched)
=============================================================================
