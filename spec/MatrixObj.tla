----------------------------- MODULE MatrixObj -----------------------------
(***************************************************************************)
(* The library's matrices as objects.  The state is the table of live      *)
(* objects: identifier -> [ty, A] with A a sequence of rows and ty one of  *)
(*    M  Matrix        A  ArcMatrix       O  OptimizedArcMatrix            *)
(*    S  SquareMatrix  D  MdsMatrix                                        *)
(* All wrappers behave as the matrix they wrap; ty only tells which        *)
(* operations exist.  An action creates, overwrites, writes or reads an    *)
(* object; Result is what the caller must see.                             *)
(***************************************************************************)
EXTENDS Linear
CONSTANT Fld                       \* the field's modulus

Nothing == [i \in {} |-> 0]
Put(tab, i, ty, A) == (i :> [ty |-> ty, A |-> A]) @@ tab
Creators == {"new", "known", "from", "ident", "copy", "tr", "had", "scale", "row", "mul", "inner", "wrap",
             "cof", "minors", "inv", "dinv", "v", "w", "hat", "m22"}

\* what the wrappers of each type wrap, and may be wrapped into
Inner(ty) == CASE ty = "A" -> "M" [] ty = "O" -> "A" [] ty = "S" -> "M" [] ty = "D" -> "S"

Live(tab, i) == i \in DOMAIN tab
Enabled(tab, a) ==
  CASE a.op \in {"new", "known", "from", "m22", "ident", "snap"} -> TRUE
    [] a.op \in {"get", "set"} -> IF Live(tab, a.i) THEN a.r < Rows(tab[a.i].A) /\ a.c < Cols(tab[a.i].A) ELSE FALSE
    [] a.op \in {"had", "eq"} -> IF Live(tab, a.a) /\ Live(tab, a.b)
                                 THEN /\ tab[a.a].ty = tab[a.b].ty /\ Rows(tab[a.a].A) = Rows(tab[a.b].A)
                                      /\ Cols(tab[a.a].A) = Cols(tab[a.b].A) ELSE FALSE
    [] a.op = "mul" -> IF Live(tab, a.a) /\ Live(tab, a.b)
                       THEN tab[a.a].ty = tab[a.b].ty /\ tab[a.a].ty \in {"M", "S"} /\ Cols(tab[a.a].A) = Rows(tab[a.b].A) ELSE FALSE
    [] a.op = "scale" -> IF Live(tab, a.a) THEN tab[a.a].ty \in {"M", "S"} ELSE FALSE
    [] a.op = "row" -> IF Live(tab, a.a) THEN tab[a.a].ty \in {"M", "S"} /\ a.r < Rows(tab[a.a].A) ELSE FALSE
    [] a.op \in {"cof", "minors", "inv", "det"} -> IF Live(tab, a.a) THEN tab[a.a].ty = "S" /\ Rows(tab[a.a].A) <= 8 ELSE FALSE
    [] a.op \in {"v", "w", "hat"} -> IF Live(tab, a.a) THEN tab[a.a].ty = "D" ELSE FALSE
    [] a.op = "dinv" -> IF Live(tab, a.a) THEN tab[a.a].ty = "D" /\ Rows(tab[a.a].A) <= 8 /\ ~Singular(Fld, tab[a.a].A) ELSE FALSE
    [] a.op = "inner" -> IF Live(tab, a.a) THEN tab[a.a].ty # "M" ELSE FALSE
    [] a.op = "wrap" -> IF Live(tab, a.a)
                        THEN Inner(a.ty) = tab[a.a].ty /\ (a.ty = "S" => Rows(tab[a.a].A) = Cols(tab[a.a].A)) ELSE FALSE
    [] a.op \in {"copy", "tr"} -> Live(tab, a.a)
    [] OTHER -> Live(tab, a.i)

\* the object a creator makes (for "new" and "inv": when not refused)
Made(tab, a) ==
  LET A == tab[a.a].A ty == tab[a.a].ty IN
  CASE a.op \in {"new", "known", "from", "m22"} -> [ty |-> a.ty, A |-> Shape(a.e, a.r, a.c)]
    [] a.op = "ident" -> [ty |-> "S", A |-> Identity(a.r)]
    [] a.op = "copy"  -> tab[a.a]
    [] a.op = "tr"    -> [ty |-> ty, A |-> Transpose(A)]
    [] a.op = "had"   -> [ty |-> ty, A |-> Hadamard(Fld, A, tab[a.b].A)]
    [] a.op = "scale" -> [ty |-> ty, A |-> MatScale(Fld, a.x, A)]
    [] a.op = "row"   -> [ty |-> "M", A |-> <<A[a.r + 1]>>]
    [] a.op = "mul"   -> [ty |-> ty, A |-> MatMul(Fld, A, tab[a.b].A)]
    [] a.op = "inner" -> [ty |-> Inner(ty), A |-> A]
    [] a.op = "wrap"  -> [ty |-> a.ty, A |-> A]
    [] a.op = "cof"   -> [ty |-> "S", A |-> Signs(Fld, Rows(A))]
    [] a.op = "minors" -> [ty |-> "S", A |-> Minors(Fld, A)]
    [] a.op \in {"inv", "dinv"} -> [ty |-> "S", A |-> InvMat(Fld, A)]
    [] a.op = "v"     -> [ty |-> "M", A |-> SplitV(A)]
    [] a.op = "w"     -> [ty |-> "M", A |-> SplitW(A)]
    [] a.op = "hat"   -> [ty |-> "S", A |-> SplitHat(A)]

\* a creator may refuse: wrong number of elements, no inverse
Refuses(tab, a) ==
  CASE a.op \in {"new", "from"} -> Len(a.e) # a.r * a.c
    [] a.op = "inv" -> Singular(Fld, tab[a.a].A)
    [] OTHER -> FALSE

Step(tab, a) ==
  CASE a.op \in Creators -> IF Refuses(tab, a) THEN tab ELSE (a.i :> Force(Made(tab, a))) @@ tab
    [] a.op = "set"  -> [tab EXCEPT ![a.i].A[a.r + 1][a.c + 1] = a.x]
    [] a.op = "drop" -> [i \in DOMAIN tab \ {a.i} |-> tab[i]]
    [] OTHER -> tab

\* every way to look at one object
Views(o) ==
  [r |-> Rows(o.A), c |-> Cols(o.A), elements |-> Flat(o.A), rows |-> o.A, gets |-> o.A,
   copy |-> TRUE,        \* equal to its clone and to a matrix rebuilt from its elements
   differs |-> TRUE]     \* differs from any copy with one entry changed
Result(tab, a) ==
  CASE a.op \in {"inv"} -> IF Refuses(tab, a) THEN "singular" ELSE "ok"
    [] a.op \in Creators -> IF Refuses(tab, a) THEN "refused" ELSE "ok"
    [] a.op = "get"  -> tab[a.i].A[a.r + 1][a.c + 1]
    [] a.op = "eq"   -> tab[a.a].A = tab[a.b].A
    [] a.op = "det"  -> Det(Fld, tab[a.a].A)
    [] a.op = "view" -> Views(tab[a.i])
    [] a.op = "snap" -> ("-" :> <<>>) @@ [i \in DOMAIN tab |-> Flat(tab[i].A)]
    [] OTHER -> "ok"
=============================================================================
