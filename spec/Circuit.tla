------------------------------ MODULE Circuit ------------------------------
(***************************************************************************)
(* Circuits that hash: what a program of allocations, linear expressions   *)
(* and gadget calls must emit, as a state machine that grows a constraint  *)
(* system.                                                                 *)
(*                                                                         *)
(* Variables are numbered as in the final matrices: 1 is the constant one, *)
(* then the public inputs, then the witnesses.  Because inputs may still   *)
(* be allocated after a gadget call, the number of all inputs NI is given. *)
(* A term is [v, f]: a sparse linear form f over the variables; v = FALSE  *)
(* marks a circuit constant, which costs no constraints.                   *)
(*                                                                         *)
(* Machine state: [i, w]  next free input and witness                      *)
(*                env     the named terms                                  *)
(*                rows    the emitted constraints <<A, B, C>>              *)
(***************************************************************************)
EXTENDS Poseidon, Sparse

Start == [i |-> 2, w |-> 0, env |-> <<>>, rows |-> <<>>]
Bind(S, x, term) == [S EXCEPT !.env = (x :> term) @@ @]
WIndex(ni, k) == ni + k + 1              \* k-th witness, from 0
Constant(x) == [v |-> FALSE, f |-> SConst(x)]
Variable(k) == [v |-> TRUE, f |-> SVar(k)]

\* --- allocations and linear expressions --------------------------------------
AllocC(S, x, val) == Bind(S, x, Constant(val))
AllocI(S, x) == [Bind(S, x, Variable(S.i)) EXCEPT !.i = @ + 1]
AllocW(S, ni, x) == [Bind(S, x, Variable(WIndex(ni, S.w))) EXCEPT !.w = @ + 1]
\* k + sum c_j * y_j
Linear(m, S, x, k, cs, ys) ==
  Bind(S, x, [v |-> \E j \in 1..Len(ys) : S.env[ys[j]].v,
              f |-> SLin(m, <<"1">> \o cs, <<SConst(k)>> \o [j \in 1..Len(ys) |-> S.env[ys[j]].f])])
EnforceEqual(m, S, x, y) ==
  [S EXCEPT !.rows = Append(@, <<SLin(m, <<"1", FNeg(m, "1")>>, <<S.env[x].f, S.env[y].f>>), SConst("1"), <<>>>>)]

\* --- the S-box: square and multiply, most significant digit first --------------
RECURSIVE Bits(_)
Bits(e) == IF e = "0" THEN <<>> ELSE Append(Bits(IDiv(e, "2")), IntOf(IMod(e, "2")))
\* Z = [w, rows, r]: r the term so far
Times(ni, Z, a, b) ==
  [w |-> Z.w + 1, rows |-> Append(Z.rows, <<a.f, b.f, SVar(WIndex(ni, Z.w))>>), r |-> Variable(WIndex(ni, Z.w))]
SboxVar(m, ni, w, x, e) ==
  FoldLeft(LAMBDA Z, bit : LET sq == Times(ni, Z, Z.r, Z.r) IN IF bit = 1 THEN Times(ni, sq, sq.r, x) ELSE sq,
           [w |-> w, rows |-> <<>>, r |-> x], Tail(Bits(e)))
Sbox(m, ni, w, x, e) ==
  IF ~x.v THEN [w |-> w, rows |-> <<>>, r |-> Constant(FPow(m, ConstOf(x.f), e))]
  ELSE SboxVar(m, ni, w, x, e)

\* --- one layer on Z = [w, rows, s]: s the state words -----------------------------
SboxAt(m, ni, e, Z, i) ==
  LET y == Sbox(m, ni, Z.w, Z.s[i], e)
  IN [w |-> y.w, rows |-> Z.rows \o y.rows, s |-> [Z.s EXCEPT ![i] = y.r]]
LayerStep(m, ni, e, Z, L) ==
  CASE L.k = "arc" -> [Z EXCEPT !.s = [i \in 1..Len(@) |-> [v |-> @[i].v, f |-> SAddConst(m, @[i].f, L.c[i])]]]
    [] L.k = "mat" -> [Z EXCEPT !.s = [i \in 1..Len(@) |->
                          [v |-> \E j \in 1..Len(@) : @[j].v,
                           f |-> SLin(m, L.M[i], [j \in 1..Len(@) |-> @[j].f])]]]
    [] L.k = "full" -> FoldLeft(LAMBDA Y, i : SboxAt(m, ni, e, Y, i), Z, [i \in 1..Len(Z.s) |-> i])
    [] L.k = "part" -> SboxAt(m, ni, e, Z, 1)

\* a gadget call: the reference schedule, every word's terms
Gadget(m, ni, e, sched, S, xs) ==
  FoldLeft(LAMBDA Z, L : Force(LayerStep(m, ni, e, Z, L)),
           [w |-> S.w, rows |-> <<>>, s |-> [i \in 1..Len(xs) |-> S.env[xs[i]]]], sched)
Call(m, ni, e, sched, S, x, xs) ==
  LET Z == Force(Gadget(m, ni, e, sched, S, xs))
  IN [Bind(S, x, Z.s[2]) EXCEPT !.w = Z.w, !.rows = @ \o Z.rows]
=============================================================================
