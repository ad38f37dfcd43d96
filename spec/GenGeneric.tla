----------------------------- MODULE GenGeneric -----------------------------
(***************************************************************************)
(* Parameter sets and inputs for generic instances: widths, round numbers, *)
(* exponents and matrices no shipped instance has; inputs that put chosen  *)
(* values in front of every S-box.                                         *)
(***************************************************************************)
EXTENDS Inputs
VARIABLES job, done
Thorough == IOEnv.VERIF_TIER = "thorough"
RECURSIVE Join(_)
Join(ss) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o " " \o Join(Tail(ss))
Widths == << <<2, 2, 1>>, <<2, 4, 2>>, <<2, 8, 31>>, <<2, 6, 5>>, <<2, 0, 3>>, <<2, 2, 4>>, <<3, 2, 1>>, <<3, 4, 3>>, <<3, 8, 5>>, <<3, 2, 7>>, <<3, 0, 2>>, <<3, 10, 2>>, <<4, 2, 2>>, <<4, 6, 1>>, <<4, 4, 4>>, <<5, 4, 4>>, <<5, 2, 1>>, <<6, 2, 3>>, <<6, 4, 1>>, <<7, 4, 2>>, <<8, 8, 4>>, <<8, 2, 1>>, <<9, 2, 2>>, <<9, 4, 3>>, <<12, 4, 3>>, <<16, 4, 2>> >>
\* (decaf377 raises to a power by repeated multiplication: large exponents only cost time)
Exps == <<"11", "5", "3", "2", "1", "7", "inv", "4", "d", "101", "inv", "ff", "17", "12", "inv", "80", "1f", "b">>
GMat(kind, t, a) ==
  CASE kind = 0 -> Cauchy(P, t)
    [] kind = 1 -> [i \in 1..t |-> [j \in 1..t |-> Rnd(70000 + a, i, j)]]
    [] kind = 2 -> Identity(t)
    [] kind = 3 -> [i \in 1..t |-> [j \in 1..t |-> IF i = j THEN "2" ELSE "1"]]
    [] kind = 4 -> [i \in 1..t |-> [j \in 1..t |-> IF j = 1 + (i % t) THEN Rnd(70001 + a, i, j) ELSE "0"]]   \* zero corner
    [] kind = 5 -> [i \in 1..t |-> [j \in 1..t |-> "1"]]                                                    \* singular
    [] kind = 6 -> ZeroMat(t, t)
    [] kind = 7 -> [i \in 1..t |-> [j \in 1..t |-> IF RndBelow(2, 70002 + a, i, j) = 0 THEN "0" ELSE Rnd(70003 + a, i, j)]]
Consts(kind, n, t, a) ==
  [r \in 1..n |-> [j \in 1..t |->
     CASE kind = 0 -> Rnd(70100 + a, r, j)
       [] kind = 1 -> "0"
       [] kind = 2 -> IF RndBelow(3, 70101 + a, r, j) = 0 THEN "0" ELSE Values[1 + RndBelow(Len(Values), 70102 + a, r, j)]
       [] kind = 3 -> HexOf(r * 16 + j)]]
\* kinds: m matrix, c constants; derived: optimized part computed from the base
Set(s, k, alpha, mk, ck, derived) ==
  LET t == s[1] n == s[2] + s[3]
      mds == Force(GMat(mk, t, 1000 * k))
      arc == Force(Consts(ck, n, t, 1000 * k))
      base == [t |-> t, rF |-> s[2], rP |-> s[3], e |-> IF alpha = "inv" THEN ISub(P, "2") ELSE alpha, alpha |-> alpha, mds |-> mds, arc |-> arc]
      free == [oarc |-> Consts((ck + 1) % 4, n, t, 1000 * k + 1), Mi |-> GMat((mk + 3 + k) % 8, t, 1000 * k + 1), m00 |-> mds[1][1],
               v |-> [r \in 1..s[3] |-> [j \in 1..(t - 1) |-> IF RndBelow(7, 70200 + k, r, j) = 0 THEN "0" ELSE Rnd(70201 + k, r, j)]],
               what |-> [r \in 1..s[3] |-> [j \in 1..(t - 1) |-> IF RndBelow(7, 70202 + k, r, j) = 0 THEN "0" ELSE Rnd(70203 + k, r, j)]]]
      d == Optimized(P, mds, arc, s[2], s[3])
      opt == IF derived THEN [oarc |-> d.oarc, Mi |-> d.Mi, m00 |-> d.m00, v |-> d.v, what |-> d.what] ELSE free
  IN base @@ Force(opt)
Zeros(n) == [k \in 1..n |-> "0"]
InverseOr0(A) == IF Singular(P, A) THEN ZeroMat(Rows(A), Rows(A)) ELSE InvMat(P, A)
SetCmd(q, level) ==
  "set " \o ToString(q.t) \o " " \o ToString(q.rF) \o " " \o ToString(q.rP) \o " " \o q.alpha \o " " \o ToString(level) \o " "
  \o Join(Flat(q.mds) \o Flat(q.arc) \o Flat(q.oarc) \o Flat(q.Mi) \o Concat(q.v) \o Concat(q.what)
          \o Flat(InverseOr0(q.mds)) \o Flat(InverseOr0(Force(SplitHat(q.mds)))))
Run1(x) == "run " \o Join(x)
Circ(m, x) == "circ " \o m \o " " \o Join(x)
RECURSIVE Rep(_, _)
Rep(m, n) == IF n = 0 THEN "" ELSE m \o Rep(m, n - 1)
ModeStr(t, k) == CASE k = 1 -> Rep("w", t) [] k = 2 -> "c" \o Rep("w", t - 1) [] k = 3 -> Rep("c", t) [] k = 4 -> Rep("i", t)
                   [] k = 5 -> "w" \o Rep("c", t - 1) [] k = 6 -> Rep("c", t - 1) \o "w"
Plain(t, k) ==
  << [i \in 1..t |-> "0"], [i \in 1..t |-> "1"], [i \in 1..t |-> PMinus("1")], RndState(t, 70300, k), RndState(t, 70301, k) >>
  \o [i \in 1..t |-> [j \in 1..t |-> IF i = j THEN "1" ELSE "0"]]
  \o [i \in 1..t |-> [RndState(t, 70302 + k, i) EXCEPT ![i] = "0"]]
  \o [v \in 1..Len(Values) |-> [RndState(t, 70303 + k, v) EXCEPT ![1 + (v % t)] = Values[v]]]
\* chosen values in front of each S-box, when the schedule can be undone
Invertible(q, sc) == /\ \A k \in 1..Len(sc) : sc[k].k # "mat" \/ ~Singular(P, sc[k].M)
                     /\ \A k \in 1..Len(sc) : sc[k].k # "sparse" \/ ~Singular(P, Force(SparseMatrix(sc[k].a, sc[k].v, sc[k].w)))
                     /\ IGcd(q.e, ISub(P, "1")) = "1"
Boundary(q, sc, tag) ==
  IF ~Invertible(q, sc) THEN <<>>
  ELSE LET U == Force(UndoSchedule(P, sc))
           t == q.t
           sb == SelectSeq([k \in 1..Len(sc) |-> k], LAMBDA k : sc[k].k \in {"full", "part"})
           at(k, i, x) == Unrun(P, q.e, U, Len(sc), Force([RndState(t, 70400 + tag + k, i) EXCEPT ![i] = x]), k - 1)
       IN Concat([j \in 1..Len(sb) |->
            [i \in 1..(IF sc[sb[j]].k = "full" THEN t ELSE 1) |-> at(sb[j], i, IF (i + j) % 5 = 4 THEN "1" ELSE IF (i + j) % 5 = 3 THEN PMinus("1") ELSE "0")]
            \o << Unrun(P, q.e, U, Len(sc), [i \in 1..t |-> "0"], sb[j] - 1) >>])
Conv(q) == IF q.alpha = "inv" THEN [q EXCEPT !.e = ISub(P, "2")] ELSE q
SetHist(s, k) ==
  LET z(x, c) == RndBelow(x, 70500 + s[1] * 100 + s[2] * 10 + s[3], k, c)
      alpha == Exps[1 + ((k + s[1] + s[3]) % Len(Exps))]
      mk == IF k % 3 = 0 THEN 0 ELSE IF k % 3 = 1 THEN 1 ELSE z(8, 1)
      ck == IF k % 2 = 0 THEN 0 ELSE z(4, 2)
      \* derivable only from nonsingular matrices with nonsingular blocks
      der == mk \in {0, 1} /\ k % 2 = 0
      q == Force(Set(s, k, alpha, mk, ck, der))
      ref == Force(RefSchedule(q))
      opt == Force(OptSchedule(q))
      ins == Force(Plain(s[1], k) \o Boundary(q, ref, 0) \o (IF der THEN <<>> ELSE Boundary(q, opt, 1000)))
  IN << SetCmd(q, <<128, 80, 256, 0>>[1 + z(4, 3)]) >>
     \o [j \in 1..Len(ins) |-> Run1(ins[j])]
     \o (IF alpha = "inv" THEN <<>>
         ELSE [j \in 1..Len(ins) |-> IF j % 4 = 0 \/ j < 6 THEN Circ(ModeStr(s[1], IF j < 7 THEN j ELSE 1), ins[j]) ELSE Run1(ins[j])])
\* large exponents: few inputs
BigExps == <<"100", "1ff", "200", "8001", "ffff", "10000", "10001", "10005", "20003", "100003">> \o (IF Thorough THEN <<"7fff", "8000", "fffff", "1000001", "1000000">> ELSE <<>>)
BigHist(s, k) ==
  LET q == Force(Set(s, 900 + k, BigExps[k], k % 2, 0, TRUE))
      ins == << RndState(s[1], 70600, k), [i \in 1..s[1] |-> IF i = 1 THEN PMinus("1") ELSE Rnd(70601, k, i)] >>
  IN << SetCmd(q, 128) >> \o [j \in 1..2 |-> Run1(ins[j])] \o << Circ(ModeStr(s[1], 1), ins[1]), Circ(ModeStr(s[1], 5), ins[2]) >>
\* several instances alive at once over parameters that differ in one part only, parameters
\* put where dropped ones were, one operation without the other
LiveHist(s, k) ==
  LET t == s[1]
      A == Force(Set(s, 800 + k, <<"11", "5", "7">>[k], 1 - (k % 2), 0, k = 1))
      B == Force(Set(s, 820 + k, "3", 1, 0, FALSE))
      one(f) == CASE f = 1 -> [A EXCEPT !.alpha = B.alpha] [] f = 2 -> [A EXCEPT !.mds = B.mds] [] f = 3 -> [A EXCEPT !.arc = B.arc]
                  [] f = 4 -> [A EXCEPT !.oarc = B.oarc] [] f = 5 -> [A EXCEPT !.Mi = B.Mi] [] f = 6 -> [A EXCEPT !.v = B.v]
                  [] f = 7 -> [A EXCEPT !.what = B.what] [] f = 8 -> [A EXCEPT !.alpha = "inv"] [] f = 9 -> A
      x == RndState(t, 70700, k)  y == RndState(t, 70701, k)
      two == << "half opt " \o Join(y), "half unopt " \o Join(x), "half unopt " \o Join(y), "half opt " \o Join(x) >>
      chain(n) == << "chain " \o n \o " " \o ModeStr(t, 1) \o " " \o Join(x), "chain " \o n \o " " \o ModeStr(t, 5) \o " " \o Join(y) >>
      named(f) == "b" \o ToString(f)
  IN << SetCmd(A, 128), Run1(x), "twin t", "keep a" >>
     \o Concat([f \in 1..9 |->
          << SetCmd(one(f), 128 + f), Run1(x) >> \o two \o (IF f = 8 THEN <<>> ELSE << Circ(ModeStr(t, 1), x), Circ(ModeStr(t, 2), y) >> \o chain("a"))
          \o (IF f % 2 = 1 THEN << "keep " \o named(f), "use a" >> \o two \o << "keep a" >> ELSE << "drop" >>)])
     \o << "use t", Run1(x) >> \o two \o << Circ(ModeStr(t, 1), x), "keep t" >>
     \o Concat([j \in 1..5 |-> << "use " \o named(11 - 2 * j) >> \o two \o (IF j % 2 = 1 THEN << "keep " \o named(11 - 2 * j) >> ELSE << Run1(x), "drop" >>)])
     \o << "use a", Run1(y), "half opt " \o Join(x), "drop", SetCmd(B, 80) >> \o two \o << "drop", "use t" >> \o two \o << "drop", SetCmd(B, 80), Run1(x), Circ(ModeStr(t, 1), x) >>
NLive == IF Thorough THEN 3 ELSE 2
NSets == IF Thorough THEN 72 ELSE 9
Jobs == {<<w, part>> : w \in 1..Len(Widths), part \in 0..2} \cup {<<0, k>> : k \in 1..Len(BigExps)} \cup {<<100 + w, k>> : w \in 1..Len(Widths), k \in 1..NLive}
Commands(j) == IF j[1] > 100 THEN LiveHist(Widths[j[1] - 100], j[2]) ELSE IF j[1] = 0 THEN Force(BigHist(<<2, 2, 1>>, j[2])) \o Force(BigHist(<<3, 2, 1>>, j[2])) ELSE Concat([k \in 1..(NSets \div 3) |-> Force(SetHist(Widths[j[1]], 3 * k + j[2]))])
Init == job \in Jobs /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ job' = job
        /\ JsonSerialize(IOEnv.OUT \o "/gen_" \o ToString(job[1]) \o "_" \o ToString(job[2]) \o ".json", Force(Commands(job)))
=============================================================================
