--------------------------- MODULE CircuitProgram ---------------------------
(* Recorded syntheses on meanings: operations, assignment and constraints. *)
EXTENDS Program
Marked(e) == Cardinality({i \in 1..Len(e.words) : e.words[i][1] = 1})
\* meaning of a linear combination over variables with meanings V
LCMeaning(m, M, V, lc) ==
  IF Len(lc) = 1 /\ lc[1][2] = "1" THEN [M |-> M, r |-> V[lc[1][1]]]
  ELSE LET Z == FoldLeft(LAMBDA Y, x : LET f == PForm(Y.M, V[x[1]]) IN [M |-> f.M, F |-> Append(Y.F, f.f)], [M |-> M, F |-> <<>>], lc)
       IN [M |-> Z.M, r |-> [k |-> "f", f |-> Force(SLin(m, [i \in 1..Len(lc) |-> lc[i][2]], Z.F))]]
RowHolds(m, M, V, row) ==
  LET a == LCMeaning(m, M, V, row[1])
      b == LCMeaning(m, a.M, V, row[2])
      p == IF ConstMeaning(b.r) THEN PMul(m, b.M, b.r, a.r) ELSE PMul(m, b.M, a.r, b.r)
      c == LCMeaning(m, p.M, V, row[3])
      x == PForm(c.M, p.r)
      y == PForm(x.M, c.r)
  IN [M |-> y.M, ok |-> x.f = y.f]
\* number of the first row without equal meanings on both sides, or 0
Rows3(m, M, V, rows) ==
  FoldLeft(LAMBDA Z, i : IF Z.bad # 0 THEN Z ELSE LET h == RowHolds(m, Z.M, V, rows[i]) IN [M |-> h.M, bad |-> IF h.ok THEN 0 ELSE i],
           [M |-> M, bad |-> 0], [i \in 1..Len(rows) |-> i])
\* e: the record; e.out is the hash word alone, or all t state words
JudgeIn(m, e, t, sched, x, single) ==
  IF e.fail # "" \/ e.looks # 0 \/ e.marked THEN "not a program"
  ELSE LET S == PStart(Marked(e))
           word(i) == IF e.words[i][1] = 1 THEN SVar(1 + e.words[i][2]) ELSE SConst(e.words[i][2])
           want == PSchedule(m, x, sched, S.M, [i \in 1..t |-> word(i)])
           Z == FoldLeft(LAMBDA Y, o : PStep(m, Y, o), [S EXCEPT !.M = want.M], e.ops)
           out == FoldLeft(LAMBDA Y, o : LET f == PForm(Y.M, Operand(Z, o[1], o[2])) IN [M |-> f.M, s |-> Append(Y.s, f.f)],
                           [M |-> Z.M, s |-> <<>>], e.out)
           V == Force([v \in 1..Len(e.assign) |-> Operand(Z, e.assign[v][1], e.assign[v][2])])
           r == Rows3(m, out.M, V, e.rows)
       IN IF out.s # (IF single THEN <<want.s[2]>> ELSE want.s) THEN "output"
          ELSE IF r.bad # 0 THEN "row " \o ToString(r.bad) ELSE "holds"
=============================================================================
