---------------------------- MODULE TraceCircuit ----------------------------
(***************************************************************************)
(* Recorded circuit syntheses.                                             *)
(*  MODE C04: values and satisfaction.                                     *)
(*  MODE C06: the emitted matrices are those of Circuit.tla; programs that *)
(*            differ in operand values or synthesis mode only emit the     *)
(*            same matrices (digest of an event already accepted in full). *)
(* One chain of states per file; a program is one step of the chain, and   *)
(* in C06 one step per program step and per layer would be the same rows.  *)
(***************************************************************************)
EXTENDS Circuit, Decaf377, Json, IOUtils
VARIABLES file, l, known, bad
Mode == IOEnv.MODE
NFiles == atoi(IOEnv.NFILES)
Traces == Force([f \in 1..NFiles |-> ndJsonDeserialize(IOEnv.OUT \o "/c_" \o ToString(f) \o ".ndjson")])
Params == Force([n \in Rates |-> JsonDeserialize(IOEnv.PARAMS \o "/rate_" \o ToString(n) \o ".json")])
RefS == Force([n \in Rates |-> RefSchedule(Params[n])])

\* --- C06 -------------------------------------------------------------------
Every(q, k) == [j \in 1..(Len(q) \div 2) |-> q[2 * j - 2 + k]]
ProgStep(ni, S, s) ==
  CASE s[1] = "c" -> AllocC(S, s[2], FRed(P, s[3]))
    [] s[1] = "i" -> AllocI(S, s[2])
    [] s[1] = "w" -> AllocW(S, ni, s[2])
    [] s[1] = "q" -> EnforceEqual(P, S, s[2], s[3])
    [] s[1] = "l" -> LET r == SubSeq(s, 4, Len(s)) IN Linear(P, S, s[2], s[3], Every(r, 1), Every(r, 2))
    [] s[1] = "h" -> LET n == atoi(s[3]) IN Call(P, ni, Params[n].e, RefS[n], S, s[2], SubSeq(s, 4, Len(s)))
Expected(e) == FoldLeft(LAMBDA S, s : Force(ProgStep(e.ni, S, s)), Start, e.steps)
\* expected and emitted, field by field
RowOfEvent(e, k) == [j \in 1..3 |-> e.lcs[e.rows[k][j]]]
Compare(e, X) ==
  (IF Len(X.rows) = e.nc /\ Len(e.rows) = e.nc THEN {} ELSE {<<"number of constraints", Len(X.rows), e.nc>>})
  \cup (IF X.i - 1 = e.ni THEN {} ELSE {<<"public inputs", X.i - 1, e.ni>>})
  \cup (IF X.w = e.nw THEN {} ELSE {<<"witnesses", X.w, e.nw>>})
  \cup {<<"constraint", k>> : k \in {k \in 1..(IF Len(X.rows) < Len(e.rows) THEN Len(X.rows) ELSE Len(e.rows)) : RowOfEvent(e, k) # X.rows[k]}}
  \cup {<<"variable", e.named[k][1]>> : k \in {k \in 1..Len(e.named) :
          LET x == X.env[e.named[k][1]] IN
          IF e.named[k][2] = "const" THEN x.v \/ SConst(e.named[k][3]) # x.f
          ELSE ~x.v \/ e.lcs[e.named[k][3]] # x.f}}
\* what the shape may depend on (not the optimization goal: what the constraint system's
\* finalizer makes of the rows is not the gadget's, and not recorded)
Key(e) == <<[k \in 1..Len(e.steps) |-> IF e.steps[k][1] \in {"i", "w"} THEN SubSeq(e.steps[k], 1, 2) ELSE e.steps[k]]>>

\* --- verdicts ------------------------------------------------------------------
ValueErrors(e) ==
  (IF e.mode = "prove" /\ e.sat # TRUE THEN {<<"not satisfied">>} ELSE {})
  \cup {<<"value", e.hashes[k].name>> : k \in {k \in 1..Len(e.hashes) :
          IF e.mode # "setup" THEN e.hashes[k].got # e.hashes[k].native ELSE e.hashes[k].got \notin {"none", e.hashes[k].native}}}
  \cup {<<"operand changed", e.hashes[k].name>> : k \in {k \in 1..Len(e.hashes) : ~e.hashes[k].kept}}
Faults(e, kn) ==
  IF e.fail # "" THEN {<<e.fail>>}
  ELSE IF Mode = "C04" THEN ValueErrors(e)
  ELSE IF e.mode = "alone" THEN {}
  ELSE IF e.full THEN Compare(e, Force(Expected(e)))
  ELSE IF Key(e) \notin DOMAIN kn THEN {<<"no full record of this program", Key(e)>>}
  ELSE IF e.mode = "assign" THEN (IF <<e.ni, e.nw>> # kn[Key(e)].n THEN {<<"variables without matrices", e.ni, e.nw, kn[Key(e)].n>>} ELSE {})
  ELSE IF kn[Key(e)].d # e.digest THEN {<<"matrices differ from the accepted ones of this program shape">>} ELSE {}
Learn(e, kn) == IF Mode = "C06" /\ e.full THEN (Key(e) :> [d |-> e.digest, n |-> <<e.ni, e.nw>>]) @@ kn ELSE kn

Init == file \in 1..NFiles /\ l = 1 /\ known = <<>> /\ bad = FALSE
Next == /\ ~bad /\ l <= Len(Traces[file]) /\ file' = file
        /\ LET e == Traces[file][l] F == Force(Faults(e, known)) IN
           IF F = {} THEN l' = l + 1 /\ bad' = FALSE /\ known' = Force(Learn(e, known))
           ELSE /\ bad' = TRUE /\ UNCHANGED <<l, known>>
                /\ JsonSerialize(IOEnv.OUT \o "/bad_" \o ToString(file) \o ".json",
                                 [file |-> file, position |-> l, faults |-> SubSeq(SetToSeq({ToString(x) : x \in F}), 1, IF Cardinality(F) < 12 THEN Cardinality(F) ELSE 12)])
Accepted == ~bad
=============================================================================
