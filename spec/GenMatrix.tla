----------------------------- MODULE GenMatrix -----------------------------
(***************************************************************************)
(* Behaviours of the matrix machine MatrixObj, as harness commands.        *)
(*  GOAL C10: histories of writes and reads (every short one on small      *)
(*            shapes, long walks, every shape and type element by element) *)
(*  GOAL C11: products, slices and reshapings on every shape               *)
(*  GOAL C12: determinants, minors, cofactors, inverses                    *)
(***************************************************************************)
EXTENDS Inputs
M == INSTANCE MatrixObj WITH Fld <- P
VARIABLES job, done
Goal == IOEnv.GOAL
Thorough == IOEnv.VERIF_TIER = "thorough"
RECURSIVE Join(_)
Join(ss) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o " " \o Join(Tail(ss))
S(n) == ToString(n)

Cmd(a) ==
  CASE a.op \in {"new", "known", "from", "m22"} -> a.op \o " " \o a.i \o " " \o a.ty \o " " \o S(a.r) \o " " \o S(a.c) \o " " \o Join(a.e)
    [] a.op = "ident" -> "ident " \o a.i \o " " \o S(a.r)
    [] a.op \in {"copy", "tr", "inner", "cof", "minors", "inv", "dinv", "v", "w", "hat"} -> a.op \o " " \o a.i \o " " \o a.a
    [] a.op = "scale" -> "scale " \o a.i \o " " \o a.a \o " " \o a.x
    [] a.op = "row" -> "row " \o a.i \o " " \o a.a \o " " \o S(a.r)
    [] a.op = "wrap" -> "wrap " \o a.i \o " " \o a.a \o " " \o a.ty
    [] a.op \in {"had", "mul"} -> a.op \o " " \o a.i \o " " \o a.a \o " " \o a.b
    [] a.op = "eq" -> "eq " \o a.a \o " " \o a.b
    [] a.op = "det" -> "det " \o a.a
    [] a.op = "set" -> "set " \o a.i \o " " \o S(a.r) \o " " \o S(a.c) \o " " \o a.x
    [] a.op = "get" -> "get " \o a.i \o " " \o S(a.r) \o " " \o S(a.c)
    [] a.op \in {"drop", "view"} -> a.op \o " " \o a.i
    [] OTHER -> a.op
New(i, ty, r, c, e) == [op |-> "new", i |-> i, ty |-> ty, r |-> r, c |-> c, e |-> e]
V(k) == Values[1 + (k % Len(Values))]
Small(k) == HexOf(k % 9)
Types == <<"M", "A", "O", "S", "D">>
Square(ty) == ty \in {"S", "D"}

\* =========================== C10 ===========================================
\* --- every history up to a depth on a 2-object table -----------------------
Alphabet(ty, r, c) ==
  {[op |-> "set", i |-> "a", r |-> 0, c |-> c - 1, x |-> "7"],
   [op |-> "set", i |-> "a", r |-> r - 1, c |-> 0, x |-> "0"],
   [op |-> "set", i |-> "b", r |-> 0, c |-> 0, x |-> "7"],
   [op |-> "copy", i |-> "b", a |-> "a"],
   [op |-> "tr", i |-> "b", a |-> "a"],
   [op |-> "tr", i |-> "a", a |-> "b"],
   [op |-> "had", i |-> "b", a |-> "a", b |-> "b"],
   [op |-> "eq", a |-> "a", b |-> "b"],
   [op |-> "eq", a |-> "b", b |-> "a"],
   [op |-> "view", i |-> "b"]}
  \cup (IF ty \in {"M", "S"} THEN {[op |-> "scale", i |-> "a", a |-> "b", x |-> "3"]} ELSE {})
  \cup (IF ty \in {"A", "O", "D"} THEN {[op |-> "inner", i |-> "i", a |-> "a"]} ELSE {})
Opening(ty, r, c) == << New("a", ty, r, c, [k \in 1..(r * c) |-> HexOf(k)]) >>
Extend(A, Z) == UNION {{[h |-> Append(z.h, a), tab |-> M!Step(z.tab, a)] : a \in {a \in A : M!Enabled(z.tab, a)}} : z \in Z}
Paths(ty, r, c, d) ==
  LET o == Opening(ty, r, c) IN
  FoldLeft(LAMBDA Z, i : Force(Extend(Alphabet(ty, r, c), Z)), {[h |-> o, tab |-> M!Step(M!Nothing, o[1])]}, [i \in 1..d |-> i])
Closing(tab) == <<[op |-> "snap"]>> \o [k \in 1..Cardinality(DOMAIN tab) |-> [op |-> "view", i |-> SetToSeq(DOMAIN tab)[k]]]
Exhaustive(ty, r, c, d) ==
  FlattenSeq(SetToSeq({<<"reset">> \o LET q == z.h \o Closing(z.tab) IN [k \in 1..Len(q) |-> Cmd(q[k])] : z \in Paths(ty, r, c, d)}))

\* --- walks ------------------------------------------------------------------------
Ids == <<"a", "b", "c", "d", "e", "f">>
WalkShapes == << <<2, 2>>, <<2, 3>>, <<3, 2>>, <<3, 3>>, <<1, 4>>, <<4, 1>>, <<4, 4>>, <<1, 1>>, <<5, 5>>, <<4, 3>> >>
Choose(tab, w, s) ==
  LET r(x, c) == RndBelow(x, 60000 + w, s, c)
      kind == r(100, 1)
      live == SetToSeq(DOMAIN tab)
      any(c) == live[1 + r(Len(live), c)]
      id(c) == Ids[1 + r(Len(Ids), c)]
      val(c) == IF r(3, c) = 0 THEN V(r(97, c + 1)) ELSE Small(r(9, c + 2))
      sh == WalkShapes[1 + r(IF w % 2 = 0 THEN 4 ELSE Len(WalkShapes), 2)]
      ty == Types[1 + r(5, 3)]
      n == IF Square(ty) THEN IF sh[1] = 1 /\ ty = "D" THEN 2 ELSE sh[1] ELSE sh[1]
      c == IF Square(ty) THEN n ELSE sh[2]
      len == IF r(12, 4) = 0 THEN n * c + (IF r(2, 5) = 0 THEN 1 ELSE -1) ELSE n * c
      a == any(6)
      o == tab[a]
      o2 == any(7)
      fit == [op |-> "set", i |-> a, r |-> r(Rows(o.A), 8), c |-> r(Cols(o.A), 9), x |-> val(10)]
      cand ==
        CASE kind < 30 -> fit
          [] kind < 38 -> [fit EXCEPT !.op = "get"]
          [] kind < 46 -> [op |-> "view", i |-> a]
          [] kind < 54 -> [op |-> "copy", i |-> id(11), a |-> a]
          [] kind < 60 -> [op |-> "tr", i |-> id(11), a |-> a]
          [] kind < 65 -> [op |-> "eq", a |-> a, b |-> o2]
          [] kind < 70 -> [op |-> "had", i |-> id(11), a |-> a, b |-> o2]
          [] kind < 74 -> [op |-> "scale", i |-> id(11), a |-> a, x |-> val(10)]
          [] kind < 78 -> [op |-> "row", i |-> id(11), a |-> a, r |-> r(Rows(o.A), 8)]
          [] kind < 82 -> [op |-> "mul", i |-> id(11), a |-> a, b |-> o2]
          [] kind < 85 -> [op |-> "inner", i |-> id(11), a |-> a]
          [] kind < 88 -> [op |-> "wrap", i |-> id(11), a |-> a, ty |-> Types[2 + r(4, 12)]]
          [] kind < 90 -> [op |-> IF r(3, 13) = 0 THEN "v" ELSE IF r(2, 14) = 0 THEN "w" ELSE "hat", i |-> id(11), a |-> a]
          [] kind < 91 -> [op |-> "ident", i |-> id(11), r |-> 1 + r(5, 15)]
          [] kind < 93 -> [op |-> "drop", i |-> a]
          [] OTHER -> New(id(11), ty, n, c, [k \in 1..len |-> val(100 + 3 * k)])
  IN IF live = <<>> THEN New(id(11), ty, n, c, [k \in 1..(n * c) |-> Small(k + s)])
     ELSE IF cand.op = "wrap" /\ cand.ty = "D" /\ Rows(o.A) = 1 THEN [op |-> "view", i |-> a]
     ELSE IF cand.op = "mul" /\ o.ty = "M" /\ (Rows(o.A) > 4 \/ Cols(o.A) > 4 \/ Cols(tab[o2].A) > 4) THEN [op |-> "view", i |-> a]
     ELSE IF M!Enabled(tab, cand) THEN cand ELSE fit
WalkStep(Z, w, s) == LET a == Force(Choose(Z.tab, w, s)) IN
  [tab |-> M!Step(Z.tab, a), h |-> Z.h \o (IF a.op \in {"get", "view", "eq"} THEN <<Cmd(a)>> ELSE <<Cmd(a), "snap">>)]
Walk(w, len) == FoldLeft(LAMBDA Z, s : Force(WalkStep(Z, w, s)), [tab |-> M!Nothing, h |-> <<"reset">>], [s \in 1..len |-> s]).h

\* --- every shape, element by element -------------------------------------------------
\* distinct entries, so that a misplaced one shows
Distinct(r, c, tag) == [k \in 1..(r * c) |-> HexOf(1000 * tag + k)]
Touch(i, r, c, big) == Concat([k \in 1..(r * c) |->
   IF r * c > 100 /\ k % 7 # 0 /\ k < r * c - 8 THEN <<>>
   ELSE << Cmd([op |-> "set", i |-> i, r |-> (k - 1) \div c, c |-> (k - 1) % c, x |-> IF k % 5 = 0 THEN V(k) ELSE HexOf(5000 + k)]) >>
        \o (IF r * c > 36 /\ k % 5 # 0 THEN <<>> ELSE <<"snap">>)])
ShapeHist(ty, r, c) ==
  LET n == r * c
      e == Distinct(r, c, 1)
      news(len, how) == Cmd([New("x", ty, r, c, [k \in 1..len |-> HexOf(k)]) EXCEPT !.op = how])
  IN << "reset", Cmd(New("a", ty, r, c, e)), "view a", "tr t a", "view t", "tr u t", "eq a u", "copy b a", "eq a b",
        news(0, "new"), news(n - 1, "new"), news(n + 1, "new"), news(2 * n, "new"), news(n, "new"), "view x", news(n, "known"), "view x" >>
     \o (IF ty = "D" THEN << news(n, "from"), "view x", news(n - 1, "from"), news(n + c, "from") >> ELSE <<>>)
     \o (IF ty # "M" THEN << "inner i a", "view i" >> ELSE <<>>)
     \o (IF ty = "M" THEN << "wrap i a A", "view i", "wrap j i O", "view j" >> ELSE <<>>)
     \o (IF ty = "M" /\ r = c THEN << "wrap i a S", "view i" >> \o (IF r > 1 THEN << "wrap j i D", "view j" >> ELSE <<>>) ELSE <<>>)
     \o Touch("a", r, c, FALSE) \o << "view a", "snap", "drop t", "drop u", "drop x" >> \o Touch("b", r, c, TRUE) \o << "view b", "eq a b", "snap" >>
Longs == << 16, 17, 32, 33, 39, 64, 65 >>                       \* around the widths a blocked loop would use
RectShapes == SetToSeq((1..9) \X (1..9)) \o [t \in 1..7 |-> <<39, t + 1>>] \o << <<1, 12>>, <<12, 1>>, <<10, 3>>, <<3, 10>> >>
              \o [k \in 1..Len(Longs) |-> <<1, Longs[k]>>] \o [k \in 1..Len(Longs) |-> <<Longs[k], 1>>]
Shapes(ty) == IF ty = "S" THEN [n \in 1..9 |-> <<n, n>>] ELSE IF ty = "D" THEN [n \in 1..8 |-> <<n + 1, n + 1>>] ELSE RectShapes

\* =========================== C11 ===========================================
Entries(r, c, f, tag) ==
  [k \in 1..(r * c) |->
     CASE f = 1 -> Rnd(61000 + tag, r * 50 + c, k)
       [] f = 2 -> V(RndBelow(997, 61100 + tag, r * 50 + c, k))
       [] f = 3 -> CASE RndBelow(4, 61200 + tag, r * 50 + c, k) = 0 -> "1" [] RndBelow(4, 61200 + tag, r * 50 + c, k) = 1 -> PMinus("1") [] OTHER -> "0"
       [] f = 4 -> IF k = 1 + RndBelow(r * c, 61300 + tag, r, c) THEN "1" ELSE "0"
       [] f = 5 -> "0"
       [] f = 6 -> PMinus(HexOf(k))
       [] f = 7 -> IF (k - 1) \div c = (k - 1) % c THEN "1" ELSE "0"
       [] f = 8 -> "1"]
Forms == 1..8
Triples == SetToSeq((1..4) \X (1..4) \X (1..4))
           \o Concat([n \in 1..5 |-> LET m == n + 4 IN << <<m, m, m>>, <<1, m, m>>, <<m, m, 1>>, <<m, 1, m>>, <<1, m, 1>>, <<2, m, 3>>, <<m, 2, m>> >>])
           \o [t \in 1..7 |-> <<39, t + 1, t + 1>>] \o << <<1, 12, 1>>, <<12, 1, 12>>, <<3, 10, 3>>, <<2, 39, 2>>, <<8, 39, 8>> >> \o [k \in 1..Len(Longs) |-> <<1, Longs[k], 1>>]
MulHist(t, f, g) ==
  << "reset", Cmd(New("a", "M", t[1], t[2], Entries(t[1], t[2], f, 1))), Cmd(New("b", "M", t[2], t[3], Entries(t[2], t[3], g, 2))), "mul p a b", "snap",
     "tr s a", "tr r b", "snap" >>
  \o (IF t[1] = t[3] \/ (t[1] < 5 /\ t[2] < 5 /\ t[3] < 5) THEN << "mul w r s", "tr z w", "eq z p", "snap" >> ELSE <<>>)
Muls(t) == Concat([f \in Forms |-> MulHist(t, f, 1)]) \o Concat([f \in 1..7 |-> MulHist(t, 1, f + 1)])
           \o Concat([k \in 1..(IF Thorough THEN 40 ELSE 6) |-> MulHist(t, 1 + RndBelow(8, 61500, k, 1), 1 + RndBelow(8, 61500, k, 2))])
RowsHist(r) == Concat([k \in 1..r |-> << "row y a " \o S(k - 1), "view y" >>])
RectHist(ty, s, f) ==
  LET r == s[1] c == s[2] IN
  << "reset", Cmd(New("a", ty, r, c, Entries(r, c, f, 3))), Cmd(New("b", ty, r, c, Entries(r, c, 1 + (f % 8), 4))), "had h a b", "had g b a", "eq h g", "had k a a", "tr t a", "snap" >>
  \o (IF ty \in {"M", "S"} THEN << "scale s a " \o V(f + r * c), "scale u a 0", "scale o a 1", "eq o a", "scale v a " \o PMinus("1"), "snap" >> ELSE <<>>)
  \o (IF ty \in {"M", "S"} /\ f < 3 THEN RowsHist(r) ELSE <<>>)
  \o (IF ty = "S" THEN << "ident i " \o S(r), "view i", "mul p a i", "eq p a", "mul q i a", "eq q a", "mul m a b", "mul n b a", "snap" >> ELSE <<>>)
  \o (IF ty = "D" THEN << "v d a", "w e a", "hat f a", "snap", "inner q a", "tr qt q", "snap" >> ELSE <<>>)
  \o (IF ty = "S" /\ r = 2 THEN << Cmd([New("n", "S", 2, 2, Entries(2, 2, f, 5)) EXCEPT !.op = "m22"]), "view n" >> ELSE <<>>)
AlgShapes(ty) == IF Square(ty) THEN Shapes(ty) ELSE IF ty = "M" THEN RectShapes ELSE << <<2, 3>>, <<3, 2>>, <<4, 4>>, <<39, 2>>, <<39, 8>>, <<1, 5>>, <<5, 1>>, <<7, 8>> >>
Alg(ty) == Concat([k \in 1..Len(AlgShapes(ty)) |-> Concat([f \in Forms |-> RectHist(ty, AlgShapes(ty)[k], f)])])

\* =========================== C12 ===========================================
RndMat(n, tag, k) == [i \in 1..n |-> [j \in 1..n |-> Rnd(62000 + tag, k, i * 16 + j)]]
Sparse01(n, k, d) == [i \in 1..n |-> [j \in 1..n |->
   LET z == RndBelow(d, 62100 + n, k, i * 16 + j) IN IF z = 0 THEN "1" ELSE IF z = 1 THEN PMinus("1") ELSE IF z = 2 THEN Rnd(62101, k, i * 16 + j) ELSE "0"]]
Perm(n, k) == LET q == SortSeq([i \in 1..n |-> i], LAMBDA a, b : ICmp(Rnd(62200 + n, k, a), Rnd(62200 + n, k, b)) < 0)
              IN [i \in 1..n |-> [j \in 1..n |-> IF q[i] = j THEN (IF k % 3 = 0 THEN Rnd(62201, k, i) ELSE "1") ELSE "0"]]
Tri(n, k, up) == [i \in 1..n |-> [j \in 1..n |-> IF (up /\ i > j) \/ (~up /\ i < j) THEN "0" ELSE Rnd(62300 + k, i, j)]]
Lin(n, k) == \* last row a combination of the others
  LET A == Force(RndMat(n, 5, k)) r == 1 + RndBelow(n, 62400, n, k)
      C == [i \in 1..n |-> IF i = r THEN "0" ELSE Rnd(62401, k, i)]
  IN Force([A EXCEPT ![r] = FLin(P, C, A)])
SameRows(n, k) == LET A == RndMat(n, 6, k) r == 1 + RndBelow(n, 62500, n, k) s == 1 + ((r + RndBelow(n - 1, 62501, n, k)) % n) IN [A EXCEPT ![r] = A[s]]
ZeroRow(n, k) == [RndMat(n, 7, k) EXCEPT ![1 + (k % n)] = [j \in 1..n |-> "0"]]
Rank1(n, k) == [i \in 1..n |-> [j \in 1..n |-> FMul(P, Rnd(62600, k, i), Rnd(62601, k, j))]]
Cofactor(A, i, j) == FMul(P, MinorAt(P, A, i, j), IF (i + j) % 2 = 0 THEN "1" ELSE PMinus("1"))
\* A with entry (i, j) moved so that the determinant is d
WithDet(A, i, j, d) ==
  LET c == Cofactor(A, i, j) IN
  IF c = "0" THEN A ELSE [A EXCEPT ![i][j] = FAdd(P, @, FMul(P, FInv0(P, c), FSub(P, d, Det(P, A))))]
Forced(n, k, d) == LET A == Force(RndMat(n, 8, k)) i == 1 + RndBelow(n, 62700, n, k) j == 1 + RndBelow(n, 62701, n, k) IN WithDet(A, i, j, d)
\* a nonsingular matrix whose (i, j) minor is m
WithMinor(n, k, m) ==
  LET A == Force(RndMat(n, 9, k)) i == 1 + RndBelow(n, 62800, n, k) j == 1 + RndBelow(n, 62801, n, k)
      B == Force(WithDet(Force(Strike(A, i, j)), 1 + RndBelow(n - 1, 62802, n, k), 1 + RndBelow(n - 1, 62803, n, k), m))
  IN [r \in 1..n |-> [c \in 1..n |-> IF r = i \/ c = j THEN A[r][c] ELSE B[IF r < i THEN r ELSE r - 1][IF c < j THEN c ELSE c - 1]]]
CauchyK(n, k) == [i \in 1..n |-> [j \in 1..n |-> FInv0(P, HexOf(i + j + n + k))]]
Vander(n, k) == [i \in 1..n |-> [j \in 1..n |-> FPow(P, V(i + k), HexOf(j - 1))]]
Sym(n, k) == [i \in 1..n |-> [j \in 1..n |-> Rnd(62900, k, IF i < j THEN i * 16 + j ELSE j * 16 + i)]]
Skew(n, k) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN "0" ELSE IF i < j THEN Rnd(62901, k, i * 16 + j) ELSE FNeg(P, Rnd(62901, k, j * 16 + i))]]
Const(n, x) == [i \in 1..n |-> [j \in 1..n |-> x]]
\* one special value among random ones, in every position round robin
OneSpecial(n, k) == [RndMat(n, 10, k) EXCEPT ![1 + (k % n)][1 + ((k \div n) % n)] = V(k)]
Ternary(n, k) == [i \in 1..n |-> [j \in 1..n |-> <<"0", "1", PMinus("1")>>[1 + ((k \div NatPow(3, ((i - 1) * n) + j - 1)) % 3)]]]
N12(n) == IF n <= 4 THEN 24 ELSE IF n <= 6 THEN 12 ELSE 5
Many == IF Thorough THEN 8 ELSE 1
Mats(n) ==
  LET K == N12(n) * Many
      q(f(_)) == [k \in 1..K |-> f(k)]
      few(f(_)) == [k \in 1..(IF n <= 6 THEN 4 * Many ELSE 2 * Many) |-> f(k)]
  IN (IF n = 1 THEN [k \in 1..Len(Values) |-> <<<<Values[k]>>>>] ELSE <<>>)
     \o (IF n = 2 THEN [k \in 1..81 |-> Ternary(2, k - 1)] ELSE <<>>)
     \o (IF n = 3 THEN [k \in 1..(IF Thorough THEN 19683 ELSE 300) |-> Ternary(3, IF Thorough THEN k - 1 ELSE RndBelow(19683, 63000, k, 0))] ELSE <<>>)
     \o few(LAMBDA k : RndMat(n, 1, k)) \o q(LAMBDA k : Sparse01(n, k, 3 + (k % 4))) \o q(LAMBDA k : Perm(n, k))
     \o few(LAMBDA k : Tri(n, k, k % 2 = 0)) \o << Identity(n), Const(n, "0"), Const(n, "1"), Const(n, PMinus("1")) >>
     \o few(LAMBDA k : Forced(n, k, "1")) \o few(LAMBDA k : Forced(n, k, PMinus("1"))) \o q(LAMBDA k : Forced(n, k, "0")) \o few(LAMBDA k : Forced(n, k, V(k)))
     \o q(LAMBDA k : OneSpecial(n, k)) \o few(LAMBDA k : CauchyK(n, k)) \o few(LAMBDA k : Vander(n, k)) \o few(LAMBDA k : Sym(n, k)) \o few(LAMBDA k : Skew(n, k))
     \o few(LAMBDA k : Rank1(n, k)) \o few(LAMBDA k : ZeroRow(n, k)) \o few(LAMBDA k : Transpose(ZeroRow(n, k)))
     \o (IF n > 1 THEN few(LAMBDA k : Lin(n, k)) \o few(LAMBDA k : Transpose(Lin(n, k))) \o few(LAMBDA k : SameRows(n, k)) \o few(LAMBDA k : Transpose(SameRows(n, k)))
                       \o q(LAMBDA k : WithMinor(n, k, "0")) \o few(LAMBDA k : WithMinor(n, k, "1")) ELSE <<>>)
     \o (IF n > 1 THEN << Ref(n - 1).mds >> ELSE <<>>)
DetHist(A) ==
  LET n == Rows(A) e == Flat(A) IN
  << "reset", Cmd(New("x", "S", n, n, e)), "det x", "cof c x", "inv y x" >>
  \o (IF n > 1 THEN << "minors m x" >> ELSE <<>>)
  \o (IF ~Singular(P, A) THEN << "mul p x y", "mul q y x", "det y", "snap" >>
        \o (IF n > 1 THEN << "wrap d x D", "dinv z d", "eq z y" >> ELSE <<>>)
      ELSE << "snap" >>)
Dets(n, part) == LET A == Force(Mats(n)) k == {j \in 1..Len(A) : j % 8 = part} IN Concat([j \in 1..Len(A) |-> IF j \in k THEN Force(DetHist(Force(A[j]))) ELSE <<>>])

\* --- walks over few objects of one size, written in place between operations ------------
\* (C11: products and reshapings; C12: determinants, inverses, rows made equal and apart)
DWalkShape(w) == << <<2, 2>>, <<3, 3>>, <<1, 1>>, <<4, 4>>, <<2, 3>>, <<5, 5>>, <<3, 2>>, <<8, 8>> >>[1 + (w % 8)]
ChooseD(tab, w, s) ==
  LET r(x, c) == RndBelow(x, 64000 + w, s, c)
      sh == IF Goal = "C12" THEN <<DWalkShape(w)[1], DWalkShape(w)[1]>> ELSE DWalkShape(w)
      ids == <<"a", "b", "c">>
      live == SelectSeq(ids, LAMBDA i : M!Live(tab, i))
      id(c) == ids[1 + r(3, c)]
      val(c) == IF r(4, c) = 0 THEN V(r(97, c + 1)) ELSE IF r(3, c) = 0 THEN "0" ELSE Small(r(9, c + 2))
      a == live[1 + r(Len(live), 6)]  b == live[1 + r(Len(live), 7)]
      o == tab[a]
      nr == Rows(o.A)  nc == Cols(o.A)
      kind == r(100, 1)
      put(q, c, x) == [op |-> "set", i |-> a, r |-> q, c |-> c, x |-> x]
      fresh == New(id(11), IF sh[1] = sh[2] THEN IF Goal = "C12" \/ r(2, 12) = 0 THEN "S" ELSE "M" ELSE "M", sh[1], sh[2],
                   [k \in 1..(sh[1] * sh[2]) |-> IF r(2, 13) = 0 THEN Rnd(64900 + w, s, k) ELSE val(100 + 3 * k)])
      fill == LET q == r(nr, 14) z == r(nr, 15) IN
              [k \in 1..nc |-> put(q, k - 1, IF z = q THEN "0" ELSE IF r(2, 16) = 0 THEN o.A[z + 1][k] ELSE FMul(P, "3", o.A[z + 1][k]))]
      ops == IF Goal = "C12"
             THEN CASE kind < 18 -> << put(r(nr, 8), r(nc, 9), val(10)), [op |-> "det", a |-> a] >>
                    [] kind < 26 -> << put(r(nr, 8), r(nc, 9), Rnd(64901, w, s)), [op |-> "inv", i |-> "y", a |-> a] >>
                    [] kind < 36 -> << [op |-> "det", a |-> a] >>
                    [] kind < 48 -> << [op |-> "inv", i |-> id(11), a |-> a] >>
                    [] kind < 56 -> IF nr > 1 THEN << [op |-> "minors", i |-> "m", a |-> a] >> ELSE << [op |-> "det", a |-> a] >>
                    [] kind < 60 -> << [op |-> "cof", i |-> "m", a |-> a] >>
                    [] kind < 66 -> << [op |-> "tr", i |-> id(11), a |-> a], [op |-> "det", a |-> a] >>
                    [] kind < 72 -> << [op |-> "copy", i |-> id(11), a |-> a], put(r(nr, 8), r(nc, 9), val(10)), [op |-> "inv", i |-> "y", a |-> a] >>
                    [] kind < 77 -> << [op |-> "mul", i |-> id(11), a |-> a, b |-> b] >>
                    [] kind < 87 -> fill \o << [op |-> "det", a |-> a], [op |-> "inv", i |-> "y", a |-> a] >>
                    [] kind < 91 -> << [op |-> "drop", i |-> a] >>
                    [] OTHER -> << fresh >>
             ELSE CASE kind < 20 -> << put(r(nr, 8), r(nc, 9), val(10)), [op |-> "mul", i |-> "p", a |-> a, b |-> b] >>
                    [] kind < 34 -> << [op |-> "mul", i |-> id(11), a |-> a, b |-> b] >>
                    [] kind < 44 -> << [op |-> "tr", i |-> "t", a |-> b], [op |-> "mul", i |-> id(11), a |-> a, b |-> "t"] >>
                    [] kind < 50 -> << [op |-> "tr", i |-> id(11), a |-> a] >>
                    [] kind < 57 -> << [op |-> "had", i |-> id(11), a |-> a, b |-> b] >>
                    [] kind < 64 -> << [op |-> "scale", i |-> id(11), a |-> a, x |-> val(10)] >>
                    [] kind < 71 -> << put(r(nr, 8), r(nc, 9), val(10)), [op |-> "row", i |-> "w", a |-> a, r |-> r(nr, 8)] >>
                    [] kind < 76 -> << [op |-> "copy", i |-> id(11), a |-> a], put(r(nr, 8), r(nc, 9), val(10)), [op |-> "mul", i |-> "p", a |-> b, b |-> a] >>
                    [] kind < 82 -> fill \o << [op |-> "mul", i |-> "p", a |-> a, b |-> b] >>
                    [] kind < 86 -> IF o.ty = "S" /\ nr > 1 THEN << [op |-> "wrap", i |-> "d", a |-> a, ty |-> "D"], [op |-> "v", i |-> "v", a |-> "d"], [op |-> "w", i |-> "w", a |-> "d"], [op |-> "hat", i |-> "h", a |-> "d"] >>
                                                 ELSE << [op |-> "eq", a |-> a, b |-> b] >>
                    [] kind < 91 -> << [op |-> "drop", i |-> a] >>
                    [] OTHER -> << fresh >>
  IN IF live = <<>> THEN << New(id(11), IF sh[1] = sh[2] THEN "S" ELSE "M", sh[1], sh[2], [k \in 1..(sh[1] * sh[2]) |-> Small(k * k + s)]) >> ELSE ops
DStep(Z, w, s) ==
  LET as == Force(ChooseD(Z.tab, w, s))
      one(z, a) == IF ~M!Enabled(z.tab, a) THEN z ELSE Force([tab |-> M!Step(z.tab, a), h |-> Append(z.h, Cmd(a))])
      z == FoldLeft(one, Z, as)
  IN IF s % 3 = 0 THEN [z EXCEPT !.h = Append(@, "snap")] ELSE z
DWalk(w, len) == FoldLeft(LAMBDA Z, s : Force(DStep(Z, w, s)), [tab |-> M!Nothing, h |-> <<"reset">>], [s \in 1..len |-> s]).h
DLen(w) == (IF Thorough THEN 6 ELSE 1) * (IF DWalkShape(w)[1] >= 8 THEN 40 ELSE IF DWalkShape(w)[1] >= 5 THEN 150 ELSE 400)

\* =============================================================================
ExhCases == IF Thorough THEN {<<ty, 2, 2, 4>> : ty \in {"M", "A", "O", "S", "D"}} \cup {<<"M", 2, 3, 5>>, <<"M", 1, 2, 5>>, <<"A", 3, 2, 4>>, <<"O", 2, 1, 4>>, <<"S", 1, 1, 4>>}
            ELSE {<<ty, 2, 2, 3>> : ty \in {"M", "A", "O", "S", "D"}} \cup {<<"M", 2, 3, 4>>, <<"A", 3, 2, 3>>, <<"O", 2, 1, 3>>, <<"S", 1, 1, 3>>}
Jobs ==
  CASE Goal = "C10" -> {<<"exh", x>> : x \in ExhCases} \cup {<<"walk", w>> : w \in 1..(IF Thorough THEN 48 ELSE 8)} \cup {<<"shape", ty>> : ty \in {"M", "A", "O", "S", "D"}}
    [] Goal = "C11" -> {<<"mul", k>> : k \in 1..Len(Triples)} \cup {<<"alg", ty>> : ty \in {"M", "A", "O", "S", "D"}} \cup {<<"dwalk", w>> : w \in 1..(IF Thorough THEN 64 ELSE 16)}
    [] Goal = "C12" -> {<<"det", n, part>> : n \in 1..8, part \in 0..7} \cup {<<"dwalk", w>> : w \in 1..(IF Thorough THEN 64 ELSE 16)}
Commands(j) ==
  CASE j[1] = "exh" -> Exhaustive(j[2][1], j[2][2], j[2][3], j[2][4])
    [] j[1] = "walk" -> Walk(j[2], IF Thorough THEN 3000 ELSE 700)
    [] j[1] = "shape" -> <<"bad">> \o Concat([k \in 1..Len(Shapes(j[2])) |-> ShapeHist(j[2], Shapes(j[2])[k][1], Shapes(j[2])[k][2])])
    [] j[1] = "dwalk" -> DWalk(j[2], DLen(j[2]))
    [] j[1] = "mul" -> Muls(Triples[j[2]])
    [] j[1] = "alg" -> Alg(j[2])
    [] j[1] = "det" -> Dets(j[2], j[3])
Name(j) == IF j[1] = "exh" THEN j[2][1] \o ToString(j[2][2]) \o ToString(j[2][3]) \o ToString(j[2][4])
           ELSE IF j[1] = "det" THEN ToString(j[2]) \o "_" \o ToString(j[3]) ELSE IF j[1] \in {"shape", "alg"} THEN j[2] ELSE ToString(j[2])
Init == job \in Jobs /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ job' = job
        /\ JsonSerialize(IOEnv.OUT \o "/mat_" \o job[1] \o "_" \o Name(job) \o ".json", Force(Commands(job)))
=============================================================================
