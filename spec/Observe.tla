------------------------------ MODULE Observe ------------------------------
(***************************************************************************)
(* Inputs for the decisions a program takes on field elements.             *)
(*                                                                         *)
(* The watched program reports each look at data that depends on its       *)
(* input: a comparison of two elements, an inversion of one that may be    *)
(* zero, a reading of the bytes of one, with the difference of what it     *)
(* compared.  A program without looks takes the same steps on every input. *)
(* For the others this module solves for inputs that turn a look:          *)
(*                                                                         *)
(*   group [n, t, ..]       whom it watches; t words; n a rate, or 0 for   *)
(*                          programs that are no permutations              *)
(*   node  [j               its coordinates: 0 the input words, k > 0 the  *)
(*                          state after the k-th S-box layer of the        *)
(*                          published schedule                             *)
(*          s, D            a state, and directions that keep the looks    *)
(*                          turned so far                                  *)
(*          kind, i, path]  line, or gradient of look i; looks turned      *)
(*                                                                         *)
(* A line node is probed at s, s+r, s+2r for a random combination r of D;  *)
(* every look whose difference is affine along the line and not constant   *)
(* is zero at one point of the line, which is an input to check.  At that  *)
(* point the gradient of the look leaves directions that keep it zero, and *)
(* the search goes on along those, with the looks that follow.             *)
(***************************************************************************)
EXTENDS Inputs

SboxLayers(S) == SelectSeq([k \in 1..Len(S) |-> k], LAMBDA k : S[k].k \in {"full", "part"})
\* number of layers above coordinates j
Above(S, j) == IF j = 0 THEN 0 ELSE SboxLayers(S)[j]
Unit(t) == [q \in 1..t |-> [i \in 1..t |-> IF i = q THEN "1" ELSE "0"]]
Along(s, x, r) == FVAdd(P, s, FVScale(P, x, r))

\* --- probes -------------------------------------------------------------------
Points(N) == IF N.kind = "line" THEN <<N.s, Along(N.s, "1", N.r), Along(N.s, "2", N.r)>>
             ELSE IF N.kind = "grad" THEN [q \in 1..Len(N.D) |-> Along(N.s, "1", N.D[q])]
             ELSE <<N.s>>
Back(S, U, N, x) == IF N.j = 0 THEN x ELSE Unrun(P, Alpha17, U, Len(S), Force(x), Above(S, N.j))
Probes(S, U, N) == LET X == Force(Points(N)) IN [k \in 1..Len(X) |-> Force(Back(S, U, N, X[k]))]

\* --- reading the answers --------------------------------------------------------
\* both programs took the same way to look i, and look i exists in both
SameWay(L1, L2, i) == /\ Len(L1) >= i /\ Len(L2) >= i
                      /\ \A k \in 1..(i - 1) : L1[k][1] = L2[k][1] /\ L1[k][2] = L2[k][2]
                      /\ L1[i][2] = L2[i][2]
G(L, i) == L[i][3]
Affine(L, i) ==
  IF SameWay(L[1], L[2], i) /\ SameWay(L[1], L[3], i)
  THEN /\ G(L[1], i) # G(L[2], i)
       /\ FSub(P, G(L[3], i), G(L[2], i)) = FSub(P, G(L[2], i), G(L[1], i))
  ELSE FALSE
Usable(N, L) == SelectSeq([i \in 1..Len(L[1]) |-> i], LAMBDA i : i \notin ToSet(N.path) /\ Affine(L, i))
\* where look i of a line takes the value v
Solve(L, i, v) == FMul(P, FSub(P, v, G(L[1], i)), FInv0(P, FSub(P, G(L[2], i), G(L[1], i))))
Targets(L, i) == IF L[1][i][2] = "bytes" THEN Values ELSE <<"0">>

\* a gradient node's answers: directions along which look i keeps its value
Kept(N, L) ==
  LET m == [q \in 1..Len(N.D) |-> IF Len(L[q]) >= N.i THEN FSub(P, G(L[q], N.i), N.v) ELSE "0"]
      nz == SelectSeq([q \in 1..Len(m) |-> q], LAMBDA q : m[q] # "0")
  IN IF nz = <<>> THEN <<>>
     ELSE LET p == nz[1] c == FInv0(P, m[p]) IN
          [k \in 1..(Len(N.D) - 1) |->
             LET q == IF k < p THEN k ELSE k + 1 IN
             Along(N.D[q], FNeg(P, FMul(P, m[q], c)), N.D[p])]

\* --- nodes ------------------------------------------------------------------------
RndDir(D, a, b) == FLin(P, [q \in 1..Len(D) |-> Rnd(a, b, 50 + q)], D)
Root(G0, g) == [j |-> 0, s |-> RndState(G0.t, 12000, g), kind |-> "root", D |-> <<>>, path |-> <<>>]
LineNode(j, s, D, path, tag) ==
  [j |-> j, s |-> s, D |-> D, kind |-> "line", path |-> path, r |-> Force(RndDir(D, 12100 + tag, j))]
GradNode(N, s, i, v) ==
  [j |-> N.j, s |-> s, D |-> N.D, kind |-> "grad", path |-> Append(N.path, i), i |-> i, v |-> v]
=============================================================================
