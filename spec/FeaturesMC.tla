----------------------------- MODULE FeaturesMC -----------------------------
(* every effective configuration, reached by switching features on *)
EXTENDS Features
VARIABLE on
Init == on = {}
Enable(f) == f \notin on /\ on' = Closure(on \cup {f})
Next == \E f \in Requests : Enable(f)
\* closing again adds nothing, and the circuit side never appears half-enabled
Closed == Closure(on) = on
Coherent == /\ <<P, "r1cs">> \in on => <<M, "r1cs">> \in on /\ <<D, "r1cs">> \in on /\ <<P, "arkworks">> \in on
            /\ <<M, "r1cs">> \in on => <<D, "r1cs">> \in on /\ <<M, "std">> \in on
            /\ <<P, "u32_backend">> \in on <=> <<D, "u32_backend">> \in on
            /\ <<P, "arkworks">> \in on => <<P, "std">> \in on /\ <<D, "arkworks">> \in on
            /\ <<Q, "std">> \in on => <<D, "std">> \in on
=============================================================================
