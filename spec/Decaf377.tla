----------------------------- MODULE Decaf377 -----------------------------
(* The shipped instances: field, level, exponent, round numbers, rates.     *)
EXTENDS Derive
P == "12ab655e9a2ca55660b44d1e5c37b00159aa76fed00000010a11800000000001"
Alpha17 == "11"
Level == 128
RF == 8
RP == 31
Rates == 1..7
ReferenceBase(n) ==
  LET t == n + 1
      mds == Force(Cauchy(P, t))
      arc == Force(RoundConstants(Level, t, P, 32, RF, RP, LE4(17)))
  IN [t |-> t, M |-> Level, alpha |-> "exp", e |-> Alpha17, rF |-> RF, rP |-> RP, mds |-> mds, arc |-> arc]
=============================================================================
