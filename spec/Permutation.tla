---------------------------- MODULE Permutation ----------------------------
(***************************************************************************)
(* The permutation as a machine over a small field: the reference and the  *)
(* optimized schedule take their layers one step at a time from the same   *)
(* input; every input of the field is an initial state.  Constants choose  *)
(* field, width, exponent and round numbers; the constants of the rounds   *)
(* vary with `salt`.                                                       *)
(***************************************************************************)
EXTENDS Derive
CONSTANTS Q, T, E, NF, NP, Salts, MdsOffset
VARIABLES salt, input, pr, po, ref, opt
vars == <<salt, input, pr, po, ref, opt>>
q == Num(Q)
Elem == {Num(k) : k \in 0..(Q - 1)}
Mds == Force([i \in 1..T |-> [j \in 1..T |-> FInv0(q, Num((i + j + MdsOffset) % Q))]])
ArcOf(s) == Force([r \in 1..(NF + NP) |-> [j \in 1..T |-> Num((s * (3 * r + j * j) + r * r * j + s) % Q)]])
Prm == Force([s \in Salts |->
         LET o == Optimized(q, Mds, ArcOf(s), NF, NP) IN
         [t |-> T, e |-> Num(E), rF |-> NF, rP |-> NP, mds |-> Mds, arc |-> ArcOf(s)] @@ o])
RefS == Force([s \in Salts |-> RefSchedule(Prm[s])])
OptS == Force([s \in Salts |-> OptSchedule(Prm[s])])
ASSUME /\ GcdNat(E, Q - 1) = 1
       /\ IsMDS(q, Mds)

Init == /\ salt \in Salts /\ input \in [1..T -> Elem]
        /\ pr = 1 /\ po = 1 /\ ref = input /\ opt = input
StepRef == /\ pr <= Len(RefS[salt]) /\ pr' = pr + 1
           /\ ref' = Force(Apply(q, Num(E), RefS[salt][pr], ref))
           /\ UNCHANGED <<salt, input, po, opt>>
\* the optimized side waits for the reference side (their layers do not meet
\* one to one, so interleaving them adds nothing)
StepOpt == /\ pr > Len(RefS[salt]) /\ po <= Len(OptS[salt]) /\ po' = po + 1
           /\ opt' = Force(Apply(q, Num(E), OptS[salt][po], opt))
           /\ UNCHANGED <<salt, input, pr, ref>>
Next == StepRef \/ StepOpt
Done == pr > Len(RefS[salt]) /\ po > Len(OptS[salt])
TypeOK == ref \in [1..T -> Elem] /\ opt \in [1..T -> Elem]
Equal == Done => ref = opt
\* undoing the layers recovers the input, so the permutation is a bijection
Undone == Done => /\ Unrun(q, Num(E), UndoSchedule(q, RefS[salt]), Len(RefS[salt]), ref, Len(RefS[salt])) = input
                  /\ Unrun(q, Num(E), UndoSchedule(q, OptS[salt]), Len(OptS[salt]), opt, Len(OptS[salt])) = input
\* RunPart's evaluation is its definition
RunIsDef == Done => /\ RunPart(q, Num(E), RefS[salt], input, 1, Len(RefS[salt])) = ref
                    /\ RunPart(q, Num(E), OptS[salt], input, 1, Len(OptS[salt])) = opt
                    /\ RunPartDef(q, Num(E), OptS[salt], input, 2, 5) = RunPart(q, Num(E), OptS[salt], input, 2, 5)
=============================================================================
