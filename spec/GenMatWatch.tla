----------------------------- MODULE GenMatWatch -----------------------------
(***************************************************************************)
(* Matrix histories with the entries left open, for the watched build:     *)
(* what decisions do they take on their entries?                           *)
(*  PHASE ask   writes the groups: histories over words #1, #2, ..         *)
(*  PHASE fill  writes the histories of the words found for them           *)
(***************************************************************************)
EXTENDS GenMatrix
Phase == IOEnv.PHASE
W(from, n) == [k \in 1..n |-> "#" \o S(from + k)]
Fresh(i, ty, r, c, e) == Cmd(New(i, ty, r, c, e))
\* --- C10: one object and a copy, written and read -----------------------------
Spots(r, c) == IF r * c <= 16 THEN [k \in 1..(r * c) |-> k - 1] ELSE << 0, c - 1, c, (r * c) \div 2, r * c - c, r * c - 1 >>
OpenC10(ty, r, c, w) ==
  LET n == r * c sp == Spots(r, c)
      put(k) == "set a " \o S(sp[k] \div c) \o " " \o S(sp[k] % c) \o " " \o w[n + k]
      look(k) == "get a " \o S(sp[k] \div c) \o " " \o S(sp[k] % c)
  IN << "reset", Fresh("a", ty, r, c, SubSeq(w, 1, n)), "copy b a" >>
     \o Concat([k \in 1..Len(sp) |-> <<put(k), look(k)>>]) \o <<"snap">>
     \o (IF ty # "M" THEN <<"inner i a">> ELSE <<"wrap i a A", "wrap j i O">> \o (IF r = c THEN <<"wrap k a S">> \o (IF r > 1 THEN <<"wrap l k D">> ELSE <<>>) ELSE <<>>))
     \o << "tr u a", "tr v u", "view a", "view u" >> \o (IF n <= 9 THEN << "eq a b" >> ELSE <<>>) \o << "snap" >>
WordsC10(r, c) == r * c + Len(Spots(r, c))
\* --- C11 --------------------------------------------------------------------------
OpenMul(t, w) ==
  << "reset", Fresh("a", "M", t[1], t[2], SubSeq(w, 1, t[1] * t[2])), Fresh("b", "M", t[2], t[3], SubSeq(w, t[1] * t[2] + 1, (t[1] + t[3]) * t[2])), "mul p a b", "snap" >>
OpenRect(ty, r, c, w) ==
  LET n == r * c IN
  << "reset", Fresh("a", ty, r, c, SubSeq(w, 1, n)), Fresh("b", ty, r, c, SubSeq(w, n + 1, 2 * n)), "had h a b", "tr t a" >>
  \o (IF ty \in {"M", "S"} THEN <<"scale s a " \o w[2 * n + 1]>> \o [k \in 1..r |-> "row y" \o S(k) \o " a " \o S(k - 1)] ELSE <<>>)
  \o (IF ty = "S" THEN << "ident i " \o S(r), "mul p a i", "mul q i a", "mul m a b", "mul n b a" >> ELSE <<>>)
  \o (IF ty = "D" THEN << "v d a", "w e a", "hat f a", "inner q a" >> ELSE <<>>)
  \o << "snap" >>
\* --- C12 ---------------------------------------------------------------------------
OpenDet(n, w) == << "reset", Fresh("x", "S", n, n, w), "det x", "cof c x" >> \o (IF n > 1 THEN <<"minors m x">> ELSE <<>>) \o <<"snap">>
OpenInv(n, w) == << "reset", Fresh("x", "S", n, n, w), "inv y x", "snap" >>
OpenDInv(n, w) == << "reset", Fresh("x", "S", n, n, w), "wrap d x D", "dinv z d", "snap" >>
\* --- the groups ----------------------------------------------------------------------
Small10 == << <<1, 1>>, <<1, 2>>, <<2, 1>>, <<2, 2>>, <<2, 3>>, <<3, 2>>, <<3, 3>>, <<4, 4>>, <<1, 5>>, <<5, 1>>, <<4, 7>>, <<8, 8>>, <<9, 4>>, <<39, 2>>, <<39, 3>>, <<39, 8>> >>
Of10(ty) == IF Square(ty) THEN Shapes(ty) ELSE Small10
TySeq(f(_)) == Concat([k \in 1..5 |-> f(Types[k])])
List ==
  CASE Goal = "C10" -> TySeq(LAMBDA ty : [k \in 1..Len(Of10(ty)) |-> <<"c10", ty, Of10(ty)[k][1], Of10(ty)[k][2], WordsC10(Of10(ty)[k][1], Of10(ty)[k][2])>>])
    [] Goal = "C11" -> [k \in 1..Len(Triples) |-> <<"mul", Triples[k], 0, 0, (Triples[k][1] + Triples[k][3]) * Triples[k][2]>>]
                       \o TySeq(LAMBDA ty : [k \in 1..Len(AlgShapes(ty)) |-> <<"rect", ty, AlgShapes(ty)[k][1], AlgShapes(ty)[k][2], 2 * AlgShapes(ty)[k][1] * AlgShapes(ty)[k][2] + 1>>])
    [] Goal = "C12" -> [n \in 1..8 |-> <<"det", "S", n, n, n * n>>] \o [n \in 1..8 |-> <<"inv", "S", n, n, n * n>>] \o [n \in 1..7 |-> <<"dinv", "S", n + 1, n + 1, (n + 1) * (n + 1)>>]
Open(j, w) ==
  CASE j[1] = "c10" -> OpenC10(j[2], j[3], j[4], w)
    [] j[1] = "mul" -> OpenMul(j[2], w)
    [] j[1] = "rect" -> OpenRect(j[2], j[3], j[4], w)
    [] j[1] = "det" -> OpenDet(j[3], w)
    [] j[1] = "inv" -> OpenInv(j[3], w)
    [] j[1] = "dinv" -> OpenDInv(j[3], w)
\* a history to check: MdsMatrix::inverse is for nonsingular matrices
Filled(j, w) == IF j[1] \in {"inv", "dinv", "det"} THEN DetHist(Shape(w, j[3], j[3])) ELSE Open(j, w)

Found == JsonDeserialize(IOEnv.OUT \o "/found.json")          \* [g, w]
InitWatch == job \in (IF Phase = "ask" THEN {<<"ask">>} ELSE {<<"fill", part>> : part \in 0..7}) /\ done = FALSE
NextWatch ==
  /\ ~done /\ done' = TRUE /\ job' = job
  /\ IF Phase = "ask"
     THEN LET L == List IN
          JsonSerialize(IOEnv.OUT \o "/groups.json",
             [k \in 1..Len(L) |-> [n |-> 0, t |-> L[k][5], name |-> ToString(L[k]), open |-> SubSeq(Open(L[k], W(0, L[k][5])), 2, Len(Open(L[k], W(0, L[k][5]))))]])
     ELSE LET L == List F == Force(Found)
              mine == SelectSeq([k \in 1..Len(F) |-> k], LAMBDA k : k % 8 = job[2])
          IN IF mine = <<>> THEN TRUE
             ELSE JsonSerialize(IOEnv.OUT \o "/mat_watch_" \o S(job[2]) \o ".json", Concat([k \in 1..Len(mine) |-> Force(Filled(L[F[mine[k]].g], F[mine[k]].w))]))
=============================================================================
