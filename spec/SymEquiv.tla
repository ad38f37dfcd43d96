----------------------------- MODULE SymEquiv -----------------------------
(***************************************************************************)
(* The optimized schedule refines the reference schedule for EVERY input.  *)
(*                                                                         *)
(* Both schedules run side by side on symbolic states: a word is a linear  *)
(* form over the symbols 1, x_1..x_t (the input words) and y_1, y_2, ...   *)
(* (the outputs of the S-boxes so far), i.e. the sequence of its           *)
(* coefficients.  Linear layers act on the forms.  When both sides reach   *)
(* an S-box layer, the forms entering the S-boxes must be identical        *)
(* (invariant Agree); the outputs then are the same unknown values on both *)
(* sides and become fresh symbols.  If at the end all words agree, the two *)
(* schedules are equal as functions, whatever the S-box is.                *)
(*                                                                         *)
(* Checked on the parameters the code ships (dumped through its API).      *)
(***************************************************************************)
EXTENDS Decaf377, Json, IOUtils
VARIABLES n, pr, po, A, B, ny, stuck
vars == <<n, pr, po, A, B, ny, stuck>>

Params == Force([k \in Rates |-> JsonDeserialize(IOEnv.PARAMS \o "/rate_" \o ToString(k) \o ".json")])
RefS == Force([k \in Rates |-> RefSchedule(Params[k])])
OptS == Force([k \in Rates |-> OptSchedule(Params[k])])

Width(k) == 1 + Params[k].t + Params[k].t * Params[k].rF + Params[k].rP
Unit(w, i) == [j \in 1..w |-> IF j = i THEN "1" ELSE "0"]
ConstForm(w, c) == [j \in 1..w |-> IF j = 1 THEN c ELSE "0"]

Nonlinear(L) == L.k \in {"full", "part"}
\* a linear layer on forms
Act(L, S) ==
  LET w == Len(S[1]) t == Len(S) IN
  CASE L.k = "arc"  -> [i \in 1..t |-> [S[i] EXCEPT ![1] = FAdd(P, @, L.c[i])]]
    [] L.k = "add0" -> [S EXCEPT ![1][1] = FAdd(P, @, L.c)]
    [] L.k = "mat"  -> [i \in 1..t |-> FLin(P, L.M[i], S)]
    [] L.k = "sparse" -> [i \in 1..t |-> IF i = 1 THEN FLin(P, <<L.a>> \o L.w, S)
                                          ELSE FVAdd(P, S[i], FVScale(P, L.v[i - 1], S[1]))]
Start(k) == [i \in 1..Params[k].t |-> Unit(Width(k), 1 + i)]

Init == /\ n \in Rates /\ pr = 1 /\ po = 1 /\ ny = 0 /\ stuck = FALSE
        /\ A = Force(Start(n)) /\ B = Force(Start(n))
RefDone == pr > Len(RefS[n])
OptDone == po > Len(OptS[n])
RefLinear == /\ ~stuck /\ ~RefDone /\ ~Nonlinear(RefS[n][pr])
             /\ A' = Force(Act(RefS[n][pr], A)) /\ pr' = pr + 1
             /\ UNCHANGED <<n, po, B, ny, stuck>>
RefWaits == IF RefDone THEN TRUE ELSE Nonlinear(RefS[n][pr])
OptWaits == IF OptDone THEN TRUE ELSE Nonlinear(OptS[n][po])
OptLinear == /\ ~stuck /\ RefWaits
             /\ ~OptDone /\ ~Nonlinear(OptS[n][po])
             /\ B' = Force(Act(OptS[n][po], B)) /\ po' = po + 1
             /\ UNCHANGED <<n, pr, A, ny, stuck>>
AtSbox == ~RefDone /\ ~OptDone /\ Nonlinear(RefS[n][pr]) /\ Nonlinear(OptS[n][po])
Touched(L) == IF L.k = "full" THEN 1..Params[n].t ELSE {1}
Sbox == /\ ~stuck /\ AtSbox
        /\ IF RefS[n][pr].k = OptS[n][po].k /\ \A i \in Touched(RefS[n][pr]) : A[i] = B[i]
           THEN LET T == Touched(RefS[n][pr])
                    f(i) == Unit(Width(n), 1 + Params[n].t + ny + i)
                IN /\ A' = Force([i \in 1..Params[n].t |-> IF i \in T THEN f(i) ELSE A[i]])
                   /\ B' = Force([i \in 1..Params[n].t |-> IF i \in T THEN f(i) ELSE B[i]])
                   /\ pr' = pr + 1 /\ po' = po + 1 /\ ny' = ny + Cardinality(T)
                   /\ UNCHANGED <<n, stuck>>
           ELSE stuck' = TRUE /\ UNCHANGED <<n, pr, po, A, B, ny>>
Next == RefLinear \/ OptLinear \/ Sbox
Spec == Init /\ [][Next]_vars
\* S-box inputs always agree
Agree == ~stuck
\* once neither side can move, both are finished and equal
EndEqual == ~stuck /\ RefWaits /\ OptWaits /\ (RefDone \/ OptDone) => RefDone /\ OptDone /\ A = B
=============================================================================
