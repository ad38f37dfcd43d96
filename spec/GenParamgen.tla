---------------------------- MODULE GenParamgen ----------------------------
(***************************************************************************)
(* Commands for the parameter-generator harness, one file per job.         *)
(*  GOAL C15: exponent choice over every field, encodings                  *)
(*  GOAL C16: round numbers over grids, boundaries of every bound and      *)
(*            random inputs; histories of round-number records             *)
(*  GOAL C17: transcript histories                                         *)
(*  GOAL CONSTS: round-constant matrices and optimized ones                *)
(***************************************************************************)
EXTENDS Inputs, ParamGen
VARIABLES job, done
Goal == IOEnv.GOAL
Thorough == IOEnv.VERIF_TIER = "thorough"
Fields == JsonDeserialize(IOEnv.OUT \o "/fields.json")   \* <<name, modulus, transcripts?>>
RECURSIVE Join(_)
Join(ss) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1]
            ELSE LET h == Len(ss) \div 2 IN Join(SubSeq(ss, 1, h)) \o " " \o Join(SubSeq(ss, h + 1, Len(ss)))
Range0(a, b) == [i \in 1..(b - a + 1) |-> a + i - 1]

\* ======================= C15 ===============================================
EncValues == {"0", "1", "2", "3", "7f", "80", "ff", "100", "101", "7fff", "8000", "ffff", "10000", "10001", "ffffff", "1000000",
              "7fffffff", "80000000", "fffffffe", "ffffffff", "12345678", "deadbeef", "a0b0c0d", "1020304"}
             \cup {HexOf(c) : c \in (1..300) \ {18}} \cup {Two(k) : k \in 5..31} \cup {ISub(Two(k), "1") : k \in 9..32}
AlphaJobs(u) ==
  << FlattenSeq([i \in 1..Len(Fields) |-> <<"alpha " \o Fields[i][1] \o " 0", "alpha " \o Fields[i][1] \o " 1">>]),
     <<"enc inv">> \o LET q == Force(SetToSeq(EncValues)) IN [i \in 1..Len(q) |-> "enc " \o q[i]] >>

\* ======================= C16 ===============================================
Limbs(p) == LET n == (IBits(p) + 63) \div 64 IN IF n <= 8 THEN n ELSE 12
\* an odd number of exactly b bits: random, all ones, or just above the power
Wide(a, b) == FromLE(ToLE(Rnd(a, b, 1), 31) \o ToLE(Rnd(a, b, 2), 31) \o ToLE(Rnd(a, b, 3), 31) \o ToLE(Rnd(a, b, 4), 31))
Modulus(b, k) ==
  LET top == Two(b - 1)
      rest == IF k = 0 THEN ISub(top, "1") ELSE IF k = 1 THEN "1" ELSE IMod(Wide(b, k), top)
      x == IAdd(top, rest)
  IN IF IMod(x, "2") = "1" THEN x ELSE IAdd(x, "1")
Ask(v, M, t, a, p) == "rounds " \o ToString(v) \o " " \o HexOf(M) \o " " \o HexOf(t) \o " " \o a \o " " \o ToString(Limbs(p)) \o " " \o p
Alphas == <<"3", "5", "7", "9", "11", "1d", "41", "inv">>
Pick(s, k) == s[1 + (k % Len(s))]
Versions(a) == IF a = "inv" THEN <<1>> ELSE <<1, 2>>
\* the security levels around which the statistical bound flips, for a b-bit modulus
FlipLevels(b, t, a) ==
  LET x == (b - 1) * (t + 1)
      e == IF a = "inv" THEN 2 * (t + 1) ELSE IBits(IPow(ISub(a, "1"), t + 1)) - 1
      k == x - e
  IN {m \in {k - 2, k - 1, k, k + 1} : m >= 1 /\ m <= 256}
StatFlips(a) ==
  FlattenSeq([i \in 1..9 |-> LET t == i IN
     FlattenSeq([j \in 1..14 |-> LET b == <<9, 10, 13, 16, 17, 20, 24, 31, 32, 40, 48, 61, 63, 64>>[j] L == SetToSeq(FlipLevels(b, t, a)) IN
        [q \in 1..Len(L) |-> Ask(1, L[q], t, a, Modulus(b, 2 + q))]])])
SizeSweep(v, a, lo, hi) ==
  [i \in 1..(hi - lo + 1) |-> LET b == lo + i - 1 IN Ask(v, Pick(<<128, 128, 256, 80, 192>>, i), 2 + (b % 7), a, Modulus(b, 3 + i))]
WidthSweep(v, a, lo, hi) == [i \in 1..(hi - lo + 1) |-> Ask(v, Pick(<<128, 256, 100>>, i \div 2), lo + i - 1, a, Modulus(Pick(<<255, 253, 64, 384, 128>>, i), 4))]
LevelSweep(v, a, lo, hi) == [i \in 1..(hi - lo + 1) |-> Ask(v, lo + i - 1, Pick(<<3, 2, 5, 8, 12>>, i), a, Modulus(Pick(<<253, 255, 128, 64, 381>>, i \div 3), 5))]
RandomAsks(v, j, n) ==
  [i \in 1..n |-> LET r(k, m) == RndBelow(m, 900 + j, i, k) a == Alphas[1 + r(1, IF v = 2 THEN 7 ELSE 8)] IN
     Ask(v, 1 + r(2, IF v = 2 THEN 320 ELSE 256), 1 + r(3, IF r(4, 3) = 0 THEN 60 ELSE 12), a, Modulus(8 + r(5, IF r(6, 2) = 0 THEN 760 ELSE 290), 6 + i))]
Opts == <<"3", "5", "11", "inv">>
Known == <<"12ab655e9a2ca55660b44d1e5c37b00159aa76fed00000010a11800000000001",
           "73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001",
           "30644e72e131a029b85045b68181585d2833e84879b9709143e1f593f0000001",
           "ffffffff00000001", "7fffffff", "1fffffffffffffff", "7fffffffffffffffffffffffffffffff",
           "7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed", "10001", "78000001", "7f000001">>
KnownAsks(u) == FlattenSeq([i \in 1..Len(Known) |-> FlattenSeq([j \in 1..4 |->
  FlattenSeq([k \in 1..6 |-> FlattenSeq([m \in 1..2 |-> [v \in 1..Len(Versions(Opts[j])) |->
     Ask(v, 128 * m, <<2, 3, 4, 5, 8, 16>>[k], Opts[j], Known[i])]])])])])
\* odd 51-, 99-, .. bit moduli keep the fewest bits in a word-wise logarithm
Awkward(u) == FlattenSeq([i \in 1..12 |-> LET b == <<50, 51, 52, 98, 99, 100, 146, 147, 194, 195, 243, 291>>[i] IN
  FlattenSeq([k \in 1..6 |-> [j \in 1..3 |-> Ask(1, 256, 2 + k, <<"3", "5", "inv">>[j], Modulus(b, 1 + k))]])])
Refusals(u) == <<Ask(1, 257, 3, "11", Known[1]), Ask(1, 256, 3, "11", Known[1]), Ask(1, 1000, 3, "inv", Known[1]), Ask(1, 65536, 2, "5", Known[2]),
              Ask(1, 257, 3, "5", Known[4]), Ask(1, 512, 3, "3", Known[5])>>
\* round-number records
RnOps == <<"F=0", "F=8", "F+2", "F+0", "P=0", "P=1f", "P+3", "P=ff", "F=100", "P+100", "F+ffffffff", "P=7fffffffffff">>
Rn(f, p, ops) == "rn " \o f \o " " \o p \o " " \o Join(ops)
RnJob(u) == <<Rn("8", "1f", <<>>), Rn("0", "0", <<>>), Rn("1f", "8", <<>>), Rn("7fffffffffffffff", "8000000000000000", <<>>)>>
  \o [i \in 1..Len(RnOps) |-> Rn("5", "9", <<RnOps[i]>>)]
  \o FlattenSeq([i \in 1..Len(RnOps) |-> [j \in 1..Len(RnOps) |-> Rn("8", "1f", <<RnOps[i], RnOps[j]>>)]])
  \o FlattenSeq([i \in 1..6 |-> FlattenSeq([j \in 1..8 |-> [k \in 1..8 |-> Rn("1f", "8", <<RnOps[i], RnOps[j], RnOps[k]>>)]])])
NRound == IF Thorough THEN 78 ELSE 27
RoundJob(j) ==
  CASE j = 1 -> RnJob(0)
    [] j = 2 -> KnownAsks(0)
    [] j = 3 -> Awkward(0) \o Refusals(0)
    [] j = 4 -> StatFlips("3")
    [] j = 5 -> StatFlips("5")
    [] j = 6 -> StatFlips("inv")
    [] j = 7 -> StatFlips("11")
    [] j = 8 -> StatFlips("7")
    [] j = 9 -> SizeSweep(1, "5", 8, 390)
    [] j = 10 -> SizeSweep(1, "inv", 8, 390)
    [] j = 11 -> SizeSweep(1, "11", 60, 300)
    [] j = 12 -> SizeSweep(2, "5", 40, 130)
    [] j = 13 -> SizeSweep(1, "3", 391, 768)
    [] j = 14 -> WidthSweep(1, "3", 1, 70)
    [] j = 15 -> WidthSweep(1, "5", 1, 130)
    [] j = 16 -> WidthSweep(1, "inv", 1, 70)
    [] j = 17 -> WidthSweep(2, "7", 1, 40)
    [] j = 18 -> WidthSweep(2, "3", 1, 40)
    [] j = 19 -> LevelSweep(1, "3", 1, 256)
    [] j = 20 -> LevelSweep(1, "11", 1, 256)
    [] j = 21 -> LevelSweep(1, "inv", 1, 256)
    [] j = 22 -> LevelSweep(2, "5", 1, 130)
    [] j = 23 -> LevelSweep(2, "11", 131, 300)
    [] j = 24 -> RandomAsks(1, 1, 400)
    [] j = 25 -> RandomAsks(1, 2, 400)
    [] j = 26 -> RandomAsks(2, 3, 130)
    [] j = 27 -> RandomAsks(2, 4, 130)
    [] j = 28 -> StatFlips("9")
    [] j = 29 -> StatFlips("d")
    [] j = 30 -> StatFlips("21")
    [] j = 31 -> StatFlips("41")
    [] j = 32 -> WidthSweep(2, "5", 1, 130)
    [] j = 33 -> SizeSweep(2, "3", 8, 600)
    [] j = 34 -> SizeSweep(2, "7", 8, 600)
    [] j = 35 -> SizeSweep(2, "11", 8, 600)
    [] j = 36 -> LevelSweep(2, "3", 1, 600)
    [] j = 37 -> LevelSweep(2, "5", 1, 600)
    [] j = 38 -> LevelSweep(2, "11", 1, 600)
    [] OTHER -> RandomAsks(1 + (j % 2), 10 + j, IF j % 2 = 0 THEN 2000 ELSE 500)

\* ======================= C17 ===============================================
\* ark-ff 0.4 multiplies wrongly modulo some moduli that fill their last word
SepFields == SelectSeq(Fields, LAMBDA f : f[3] /\ IBits(f[2]) % 64 # 0)
\* a separation: [k, M, t, rF, rP, alpha]
SepCmd(i, k, s) == "sep " \o i \o " " \o k \o " " \o Join(s)
Base == <<"80", "3", "8", "1f", "11">>
Variant(j, x) == [Base EXCEPT ![j] = x]
Sizes == <<"0", "1", "2", "4", "5", "8", "ff", "100", "101", "ffff", "10000", "ffffffff", "100000000", "100000001", "ffffffffffff", "100000000000000", "ffffffffffffffff", "8000000000000000">>
Bytes1 == <<"0", "1", "2", "7", "9", "1e", "20", "7f", "80", "81", "fe", "ff">>
Exps == <<"inv", "3", "5", "7", "10", "12", "100", "101", "110", "1100", "10001", "110000", "1000011", "11000000", "ff", "ffff", "fffffffe", "fffffff", "7fffffff">>
Variants == <<Base>> \o [i \in 1..Len(Sizes) |-> Variant(1, Sizes[i])] \o [i \in 1..Len(Sizes) |-> Variant(2, Sizes[i])]
            \o [i \in 1..Len(Bytes1) |-> Variant(3, Bytes1[i])] \o [i \in 1..Len(Bytes1) |-> Variant(4, Bytes1[i])]
            \o [i \in 1..Len(Exps) |-> Variant(5, Exps[i])]
            \o <<<<"3", "80", "8", "1f", "11">>, <<"80", "3", "1f", "8", "11">>, <<"80", "8", "3", "1f", "11">>, <<"80", "3", "8", "11", "1f">>>>
OneSep(k, s, n) == <<"new a round-constants", SepCmd("a", k, s), "sq a " \o k \o " " \o HexOf(n)>>
DecafK == (CHOOSE i \in 1..Len(Fields) : Fields[i][2] = P)
DK == Fields[DecafK][1]
VariantJob(u) == FlattenSeq([i \in 1..Len(Variants) |-> OneSep(DK, Variants[i], 2)])
\* (the values of this job are fixed and none of them meets that)
AllSep == SelectSeq(Fields, LAMBDA f : f[3])
FieldJob(u) == FlattenSeq([i \in 1..Len(AllSep) |-> OneSep(AllSep[i][1], Base, 3) \o OneSep(AllSep[i][1], Variant(5, "inv"), 2)])
\* whole instances: every published width, all constants
Whole(n) == OneSep(DK, <<"80", HexOf(n + 1), "8", "1f", "11">>, 39 * (n + 1))
WholeJob(u) == FlattenSeq([n \in 1..(IF Thorough THEN 7 ELSE 3) |-> Whole(n)])
\* the published instance of another curve size, and long squeezes crossing sponge blocks
LongJob(u) == FlattenSeq([i \in 1..Len(SepFields) |-> IF i % 4 # 1 /\ ~Thorough THEN <<>> ELSE OneSep(SepFields[i][1], Variant(1, "100"), 40)])
\* histories over three transcripts
Texts == <<"", "00", "01", "ff", "706f736569646f6e", "000102030405060708090a0b0c0d0e0f">>
Hexes(n, a) == LET b == ToLE(Rnd(a, n, 7), 31) H == [i \in 1..n |-> LET x == b[1 + (i % 31)] IN SubSeq(HexDigits, 1 + (x \div 16), 1 + (x \div 16)) \o SubSeq(HexDigits, 1 + (x % 16), 1 + (x % 16))]
               IN FoldLeft(LAMBDA s, x : s \o x, "", H)
Labels == <<"r", "t", "M", "p", "r_F", "alpha", "dom-sep", "round-constant", "a long label that takes many bytes to absorb and then some more of them">>
\* op number k of walk w
WalkStep(w, k) ==
  LET r(c, m) == RndBelow(m, 7000 + w, k, c)
      i == <<"a", "b", "c">>[1 + r(1, 3)]
      j == <<"a", "b", "c">>[1 + r(2, 3)]
      f == Pick(SepFields, r(3, 1000))[1]
      z == r(4, 12)
  IN CASE z <= 2 -> SepCmd(i, f, Pick(Variants, r(5, 1000)))
       [] z \in 3..6 -> "sq " \o i \o " " \o f \o " " \o HexOf(1 + r(6, IF z = 6 THEN 9 ELSE 2))
       [] z = 7 -> "dup " \o i \o " " \o j
       [] z \in 8..10 -> "app " \o i \o " " \o (IF z = 10 THEN "round-constant" ELSE Pick(<<"x", "t", "M", "p", "r_F", "alpha", "dom-sep">>, r(7, 1000))) \o " "
                         \o Hexes(1 + r(8, IF z = 9 THEN 400 ELSE 40), 100 * w + k)
       [] OTHER -> "new " \o i \o " " \o (IF r(9, 2) = 0 THEN "round-constants" ELSE "other-label")
Walk(w, n) == <<"new a round-constants", "new b round-constants", "new c other">> \o [k \in 1..n |-> WalkStep(w, k)]
\* squeezing in pieces, copies before and after squeezing, separating twice, order of separation and squeezing
Shaped17(k, l) ==
  <<"new a round-constants", SepCmd("a", k, Base), "dup a b", "sq a " \o k \o " 5", "sq b " \o k \o " 2", "sq b " \o k \o " 3", "dup b c", "sq b " \o k \o " 2", "sq c " \o k \o " 2", "sq a " \o k \o " 2",
    SepCmd("c", k, Base), "sq c " \o k \o " 1", SepCmd("c", k, Base), SepCmd("c", l, Base), "sq c " \o l \o " 2", "sq c " \o k \o " 1",
    "new b round-constants", "sq b " \o k \o " 1", SepCmd("b", k, Base), "sq b " \o k \o " 1",
    "new a round-constants", SepCmd("a", k, Base), SepCmd("a", k, Base), "sq a " \o k \o " 1", "sq a " \o l \o " 1">>
ShapedJob(u) == FlattenSeq([i \in 1..Len(SepFields) |-> Shaped17(SepFields[i][1], DK)])
TranscriptJob(j) == CASE j = 1 -> VariantJob(0) [] j = 2 -> FieldJob(0) [] j = 3 -> WholeJob(0) [] j = 4 -> LongJob(0) [] j = 5 -> ShapedJob(0)
                       [] OTHER -> Walk(j - 5, 90)

\* ======================= round-constant matrices =============================
Consts(k, v, s) == "consts a " \o k \o " " \o ToString(v) \o " " \o Join(s)
ConstShapes == <<<<"80", "1", "2", "1", "5">>, <<"80", "2", "8", "1f", "11">>, <<"50", "3", "8", "39", "3">>, <<"100", "4", "6", "0", "7">>, <<"80", "5", "0", "9", "inv">>,
                 <<"80", "7", "4", "3", "11">>, <<"c0", "9", "2", "2", "5">>, <<"80", "d", "1", "4", "inv">>, <<"80", "3", "1f", "8", "11">>, <<"80", "2", "80", "7", "11">>, <<"80", "2", "2", "81", "5">>>>
ConstJob(u) ==
  FlattenSeq([n \in 1..7 |-> [v \in 1..2 |-> Consts(DK, v, <<"80", HexOf(n + 1), "8", "1f", "11">>)]])
  \o FlattenSeq([i \in 1..Len(ConstShapes) |-> [v \in 1..2 |-> Consts(DK, v, ConstShapes[i])]])
  \o FlattenSeq([i \in 1..Len(SepFields) |-> LET q(j) == ConstShapes[1 + ((i + j) % 7)] IN
        <<Consts(SepFields[i][1], 1, q(0)), Consts(SepFields[i][1], 2, q(3)), Consts(SepFields[i][1], 1, q(0))>>])
  \o [i \in 1..(IF Thorough THEN 400 ELSE 40) |-> LET r(k, m) == RndBelow(m, 5100, i, k) IN
        Consts(Pick(SepFields, r(1, 1000))[1], 1 + r(2, 2), <<HexOf(1 + r(3, 300)), HexOf(1 + r(4, 9)), HexOf(r(5, 12)), HexOf(r(6, 20)), Pick(Exps, r(7, 1000))>>)]
\* optimized constants: f indexes the field, kind the pattern of constants and matrix
OptEntry(p, z, a, b, c) == CASE z = 0 -> HexOf(0) [] z = 1 -> "1" [] z = 2 -> ISub(p, "1") [] OTHER -> IMod(Rnd(a, b, c), p)
OptC(f, t, rF, rP, kind, j) ==
  LET p == f[2]
      C == [i \in 1..((rF + rP) * t) |->
              LET z == RndBelow(7, 5200 + j, i, 1) row == (i - 1) \div t col == (i - 1) % t IN
              CASE kind = 1 -> OptEntry(p, 9, j, i, 2)
                [] kind = 2 -> OptEntry(p, z, j, i, 2)
                [] kind = 3 -> OptEntry(p, IF col = 0 THEN 9 ELSE 0, j, i, 2)
                [] kind = 4 -> OptEntry(p, IF row = rF \div 2 THEN 0 ELSE 9, j, i, 2)
                [] kind = 5 -> OptEntry(p, IF row = (rF \div 2) + rP - 1 THEN 9 ELSE 0, j, i, 2)
                [] OTHER -> HexOf(i)]
      \* Cauchy, triangular, identity
      A == [i \in 1..(t * t) |-> LET row == (i - 1) \div t col == (i - 1) % t IN
              CASE j % 4 = 0 -> (IF row = col THEN "1" ELSE "0")
                [] j % 4 = 1 -> (IF row = col THEN HexOf(2 + row) ELSE IF row > col THEN OptEntry(p, 9, j, i, 4) ELSE "0")
                [] j % 4 = 2 -> (IF row = (t - 1) - col THEN HexOf(3 + row) ELSE IF row + col < t - 1 THEN OptEntry(p, 9, j, i, 4) ELSE "0")
                [] OTHER -> FInv0(p, HexOf(row + t + col))]
  IN "optc a " \o f[1] \o " " \o Join(<<HexOf(t), HexOf(rF), HexOf(rP)>> \o Force(C) \o Force(A))
\* the matrices below are nonsingular over these
BigFields == SelectSeq(SepFields, LAMBDA f : IBits(f[2]) > 16)
OptShapes == <<<<1, 2, 1>>, <<2, 2, 1>>, <<2, 0, 2>>, <<3, 2, 2>>, <<3, 4, 5>>, <<4, 8, 3>>, <<2, 6, 0>>, <<5, 2, 9>>, <<3, 8, 31>>, <<1, 4, 6>>, <<6, 2, 4>>, <<8, 8, 12>>>>
OptJob(u) ==
  FlattenSeq([s \in 1..Len(OptShapes) |-> FlattenSeq([k \in 1..6 |-> LET x == OptShapes[s] IN
     [m \in 1..4 |-> LET f == IF m = 1 THEN Fields[DecafK] ELSE Pick(BigFields, s * 7 + k * 3 + m) IN OptC(f, x[1], x[2], x[3], k, 24 * s + 4 * k + m)]])])

N == CASE Goal = "CONSTS" -> 2 [] Goal = "C15" -> 2 [] Goal = "C16" -> NRound [] Goal = "C17" -> (IF Thorough THEN 65 ELSE 15)
Cmds(j) == CASE Goal = "CONSTS" -> (IF j = 1 THEN ConstJob(0) ELSE OptJob(0)) [] Goal = "C15" -> AlphaJobs(0)[j] [] Goal = "C16" -> RoundJob(j) [] Goal = "C17" -> TranscriptJob(j)
Init == job \in 1..N /\ done = FALSE
Next == ~done /\ done' = TRUE /\ job' = job /\ JsonSerialize(IOEnv.OUT \o "/cmds_" \o ToString(job) \o ".json", Cmds(job))
=============================================================================
