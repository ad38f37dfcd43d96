------------------------------- MODULE Eval -------------------------------
(* Force(x) is x.  Eval.java makes TLC evaluate x completely (TLC keeps      *)
(* function constructors, also nested ones, unevaluated otherwise), which    *)
(* matters for the cost of deep recursions only.                             *)
Force(x) == x
=============================================================================
