------------------------------ MODULE GenHash ------------------------------
(* Writes input states for the hash and permutation checks, one file per    *)
(* job; jobs are the initial states, so TLC's workers share them.           *)
EXTENDS Inputs
VARIABLES job, done
Thorough == IOEnv.VERIF_TIER = "thorough"
\* "light" profile: fewer inputs, plus chosen output states
Light == IOEnv.PROFILE = "light"
NRandom == IF Light THEN (IF Thorough THEN 1500 ELSE 40) ELSE IF Thorough THEN 4000 ELSE 150
BoundValues == <<"0", "1", PMinus("1")>> \o (IF Thorough THEN Specials ELSE <<>>) \o Extra
Jobs == {<<n, "random", 0>> : n \in Rates} \cup {<<n, "pattern", 0>> : n \in Rates}
        \cup {<<n, "final", 0>> : n \in Rates}
        \cup (IF Light THEN {<<n, "ref", x>> : n \in Rates, x \in 1..3} \cup {<<n, sc, 0>> : n \in Rates, sc \in {"ref"}}
                    \cup {<<n, "opt", x>> : n \in Rates, x \in (Len(BoundValues) - Len(Extra) + 1)..Len(BoundValues)}
              ELSE {<<n, "bits", 0>> : n \in Rates} \cup {<<n, "const", 0>> : n \in Rates}
                   \cup {<<n, sc, x>> : n \in Rates, sc \in {"ref", "opt"}, x \in 1..Len(BoundValues)}
                   \cup {<<n, sc, 0>> : n \in Rates, sc \in {"ref", "opt"}})
Inputs(j) ==
  CASE j[2] = "pattern" -> PatternInputs(j[1])
    [] j[2] = "bits"    -> BitInputs(j[1])
    [] j[2] = "random"  -> RandomInputs(j[1], NRandom)
    [] j[2] = "const"   -> ConstInputs(j[1])
    [] j[2] = "final"   -> FinalInputs(j[1])
    [] OTHER            -> IF j[3] = 0 THEN TieInputs(j[1], j[2])
                           ELSE BoundaryInputs(j[1], j[2], BoundValues[j[3]], j[3])
Init == job \in Jobs /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ job' = job
        /\ JsonSerialize(IOEnv.OUT \o "/in_" \o ToString(job[1]) \o "_" \o job[2] \o "_" \o ToString(job[3]) \o ".json",
                         [n |-> job[1], kind |-> job[2], inputs |-> Force(Inputs(job))])
=============================================================================
