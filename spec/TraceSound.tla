----------------------------- MODULE TraceSound -----------------------------
(***************************************************************************)
(* Soundness of recorded circuits: the machine of Soundness.tla runs over  *)
(* each recorded constraint system, pass by pass, until every named hash   *)
(* output is determined or nothing moves.                                  *)
(*  phase "pass"   reading constraints                                     *)
(*  phase "ok"     all outputs determined; `same` tells whether their      *)
(*                 meaning is the published hash of the operands' meanings *)
(*  phase "free"   some output is not determined: an unsound circuit       *)
(*  phase "wrong"  other operand values satisfy the recorded constraints   *)
(*                 with an output that is not their hash                   *)
(* Where the meanings are not seen to be the same, they are evaluated for  *)
(* other values of the operands: one operand changed, or all.              *)
(***************************************************************************)
EXTENDS Soundness, Decaf377, Json, IOUtils
VARIABLES file, l, M, left, phase
vars == <<file, l, M, left, phase>>
NFiles == atoi(IOEnv.NFILES)
FullOnes(q) == SelectSeq(q, LAMBDA e : e.fail = "" /\ e.full)
Traces == Force([f \in 1..NFiles |-> FullOnes(ndJsonDeserialize(IOEnv.OUT \o "/c_" \o ToString(f) \o ".ndjson"))])
Params == Force([n \in Rates |-> JsonDeserialize(IOEnv.PARAMS \o "/rate_" \o ToString(n) \o ".json")])
RefS == Force([n \in Rates |-> RefSchedule(Params[n])])

\* the linear form of named variable x over the system's variables
NamedForm(e, x) == LET k == CHOOSE k \in 1..Len(e.named) : e.named[k][1] = x IN
  IF e.named[k][2] = "const" THEN SConst(e.named[k][3]) ELSE e.lcs[e.named[k][3]]
OpNames(e) == SelectSeq(e.steps, LAMBDA s : s[1] \in {"i", "w"})
OpVars(e) == [k \in 1..Len(OpNames(e)) |-> NamedForm(e, OpNames(e)[k][2])[1][1]]
Outputs(e) == SelectSeq(e.steps, LAMBDA s : s[1] = "h")
RowsOf(e) == [k \in 1..Len(e.rows) |-> [j \in 1..3 |-> e.lcs[e.rows[k][j]]]]
Known(e, m) == \A k \in 1..Len(Outputs(e)) : \A v \in Vars(NamedForm(e, Outputs(e)[k][2])) : Knows(m, v)

\* meanings of all outputs, and the published ones: fold over the hash steps
Judge(e, m) ==
  FoldLeft(LAMBDA Z, s :
     LET n == atoi(s[3])
         ins == SubSeq(s, 4, Len(s))
         A == FoldLeft(LAMBDA Y, x : LET r == EvalForm(P, Y.M, NamedForm(e, x)) IN [M |-> r.M, s |-> Append(Y.s, r.f)],
                       [M |-> Z.M, s |-> <<>>], ins)
         want == EHash(P, Params[n].e, RefS[n], A.M, A.s)
         got == EvalForm(P, want.M, NamedForm(e, s[2]))
     IN Force([M |-> got.M, same |-> Z.same /\ got.f = want.s[2]]),
     [M |-> m, same |-> TRUE], Outputs(e)).same

\* --- meanings at other operand values ---------------------------------------
Fresh(a, b) == FMul(P, FPow(P, HexOf(7 * a + 3), "1234567"), HexOf(b + 11))
ValueAt(f, A) == FDot(P, [k \in 1..Len(f) |-> f[k][2]], [k \in 1..Len(f) |-> A[f[k][1]]])
AtomValues(m, ops, vals) ==
  LET base(b, A) == ValueAt(m.bases[b], A)
      one(A, x) ==
        CASE x[1] = "one" -> "1"
          [] x[1] = "op" -> vals[CHOOSE k \in 1..Len(ops) : ops[k] = x[2]]
          [] x[1] = "pow" -> FPow(P, base(x[2], A), x[3])
          [] x[1] = "prod" -> FMul(P, FPow(P, base(x[2], A), x[3]), FPow(P, base(x[4], A), x[5]))
  IN FoldLeft(LAMBDA A, x : Force(Append(A, one(A, x))), <<>>, m.atoms)
VarValues(m, A) ==
  [v \in DOMAIN m.val \cup DOMAIN m.pow |-> IF v \in DOMAIN m.val THEN ValueAt(m.val[v], A) ELSE FPow(P, ValueAt(m.bases[m.pow[v][1]], A), m.pow[v][2])]
LcAt(lc, X) == FDot(P, [k \in 1..Len(lc) |-> lc[k][2]], [k \in 1..Len(lc) |-> X[lc[k][1]]])
\* an assignment that satisfies every row while an output is not the hash of its operands
WrongAt(e, m, vals) ==
  LET X == Force(VarValues(m, Force(AtomValues(m, OpVars(e), vals))))
      rows == RowsOf(e)
      whole == \A k \in 1..Len(rows) : \A j \in 1..3 : Vars(rows[k][j]) \subseteq DOMAIN X
      at(x) == LcAt(NamedForm(e, x), X)
      wrong == \E k \in 1..Len(Outputs(e)) : LET s == Outputs(e)[k] IN
                  at(s[2]) # Run(P, Params[atoi(s[3])].e, RefS[atoi(s[3])], [j \in 1..(Len(s) - 3) |-> at(s[j + 3])])[2]
  IN whole /\ wrong /\ \A k \in 1..Len(rows) : FMul(P, LcAt(rows[k][1], X), LcAt(rows[k][2], X)) = LcAt(rows[k][3], X)
Points(e) ==
  LET o == OpNames(e)
      given == IF e.mode = "setup" THEN [k \in 1..Len(o) |-> Fresh(k, 0)] ELSE [k \in 1..Len(o) |-> o[k][3]]
  IN [k \in 1..Len(o) |-> [given EXCEPT ![k] = Fresh(k, 1)]]
     \o [k \in 1..Len(o) |-> [given EXCEPT ![k] = "0"]]
     \o << [k \in 1..Len(o) |-> Fresh(k, 2)], [k \in 1..Len(o) |-> Fresh(1, 3)], [k \in 1..Len(o) |-> "0"] >>
Refuted(e, m) == \E k \in 1..Len(Points(e)) : WrongAt(e, m, Points(e)[k])

NF == Len(Traces[file])
Load(e) == M' = Force(AStart(OpVars(e))) /\ left' = Force(RowsOf(e)) /\ phase' = "pass"
Init == /\ file \in 1..NFiles /\ l = 0 /\ M = <<>> /\ left = <<>> /\ phase = "ok"
Advance == /\ phase = "ok" /\ l < NF /\ l' = l + 1 /\ file' = file /\ Load(Traces[file][l + 1])
Read == /\ phase = "pass" /\ UNCHANGED <<file, l>>
        /\ LET e == Traces[file][l] Z == Force(Pass(P, M, left)) IN
           IF Known(e, Z.M)
           THEN LET same == Force(Judge(e, Z.M)) IN
                /\ IF same THEN TRUE
                   ELSE JsonSerialize(IOEnv.OUT \o "/differs_" \o ToString(file) \o "_" \o ToString(l) \o ".json",
                                      [file |-> file, position |-> l, steps |-> e.steps])
                /\ M' = <<>> /\ left' = <<>>
                /\ IF same THEN phase' = "ok"
                   ELSE IF Force(Refuted(e, Z.M))
                   THEN /\ phase' = "wrong"
                        /\ JsonSerialize(IOEnv.OUT \o "/bad_" \o ToString(file) \o ".json",
                              [file |-> file, position |-> l, steps |-> e.steps,
                               wrong |-> "other operand values satisfy every constraint, with an output that is not their hash"])
                   ELSE phase' = "ok"
           ELSE IF Len(Z.left) = Len(left)
           THEN /\ phase' = "free" /\ M' = <<>> /\ left' = <<>>
                /\ JsonSerialize(IOEnv.OUT \o "/bad_" \o ToString(file) \o ".json",
                      [file |-> file, position |-> l, steps |-> e.steps, rows_not_determining |-> Len(Z.left),
                       first |-> IF Z.left = <<>> THEN <<>> ELSE Z.left[1],
                       undetermined |-> SetToSeq(UNION {Vars(NamedForm(e, Outputs(e)[k][2])) : k \in 1..Len(Outputs(e))} \ (DOMAIN Z.M.val \cup DOMAIN Z.M.pow))])
           ELSE M' = Z.M /\ left' = Z.left /\ phase' = "pass"
Next == Advance \/ Read
Determined == phase \notin {"free", "wrong"}
=============================================================================
