------------------------------ MODULE Hasher ------------------------------
(***************************************************************************)
(* Permutation instances as objects.  The state is the table of live       *)
(* instances, each with its rate and its output words.  An action carries  *)
(* the result the caller sees; every result is Perm(n, k, input), whatever *)
(* happened before.                                                        *)
(*                                                                         *)
(* Step is written as a function of (table, action) so that the same text  *)
(* serves as next-state relation (HasherMC), as generator of histories     *)
(* (GenHist) and as judge of recorded ones (TraceHist).                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC
CONSTANT Perm(_, _, _)    \* full output state for (rate, kind of call, input)

Zeros(n) == [i \in 1..(n + 1) |-> "0"]
Empty == [i \in {} |-> 0]

Enabled(tab, a) ==
  CASE a.op = "new"  -> a.i \notin DOMAIN tab
    [] a.op = "hash" -> Len(a.in) = a.n + 1
    [] a.op = "call" -> IF a.i \in DOMAIN tab THEN tab[a.i].n = a.n /\ Len(a.in) = a.n + 1 ELSE FALSE
    [] OTHER         -> a.i \in DOMAIN tab

Step(tab, a) ==
  CASE a.op = "new"  -> tab @@ (a.i :> [n |-> a.n, st |-> Zeros(a.n)])
    [] a.op = "drop" -> [i \in DOMAIN tab \ {a.i} |-> tab[i]]
    [] a.op = "call" -> [tab EXCEPT ![a.i].st = Perm(a.n, a.k, a.in)]
    [] OTHER         -> tab

\* the result action a must report in table tab
Result(tab, a) ==
  CASE a.op = "call" -> Perm(a.n, a.k, a.in)[2]
    [] a.op = "hash" -> Perm(a.n, "hash", a.in)[2]
    [] a.op = "read" -> tab[a.i].st
    [] OTHER -> "none"
=============================================================================
