------------------------------ MODULE Features ------------------------------
(***************************************************************************)
(* Feature unification over the workspace crates and decaf377.  The tables *)
(* come from the manifests ($OUT/features.json, written from `cargo        *)
(* metadata`): for each crate a record feature |-> what it switches on, an *)
(* item being <<crate, feature>>.                                          *)
(*                                                                         *)
(* A user switches features on one by one; the effective configuration is  *)
(* the closure.  The machine explores every effective configuration; the   *)
(* checks built on it (GenConfigs, TraceConfigs) build a set of them that  *)
(* covers every pair of settings and compare what the builds compute.      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, Json, IOUtils, Eval, TLC, SequencesExt
Table == JsonDeserialize(IOEnv.OUT \o "/features.json")
\* what an activated feature activates, over the crates in the table
Direct(x) == {<<Table[x[1]][x[2]][k][1], Table[x[1]][x[2]][k][2]>> : k \in 1..Len(Table[x[1]][x[2]])}
Known(x) == x[1] \in DOMAIN Table /\ x[2] \in DOMAIN Table[x[1]]
RECURSIVE Closure(_)
Closure(S) == LET T == S \cup {y \in UNION {Direct(x) : x \in S} : Known(y)} IN IF T = S THEN S ELSE Closure(Force(T))
P == "poseidon377"
M == "poseidon-permutation"
Q == "poseidon-parameters"
D == "decaf377"
\* the features a user of the workspace crates can ask for
Requests == {<<P, f>> : f \in DOMAIN Table[P] \cap {"default", "alloc", "std", "arkworks", "r1cs", "parallel", "u32_backend"}}
            \cup {<<M, f>> : f \in DOMAIN Table[M] \cap {"std", "r1cs"}}
            \cup {<<Q, f>> : f \in DOMAIN Table[Q] \cap {"std", "alloc"}}
\* the settings source code of the crates can be conditional on
Settings == {<<P, f>> : f \in {"default", "alloc", "std", "arkworks", "r1cs", "parallel", "u32_backend"}}
            \cup {<<M, f>> : f \in {"default", "std", "r1cs"}} \cup {<<Q, f>> : f \in {"default", "std", "alloc"}}
            \cup {<<D, f>> : f \in {"arkworks", "alloc", "std", "r1cs", "u32_backend", "parallel"}}
Effective(S) == Closure(S) \cap Settings
=============================================================================
