------------------------------ MODULE Inputs ------------------------------
(***************************************************************************)
(* Input states for the conformance checks, generated by the specification.*)
(* Besides special values and patterns, it places a chosen value at a      *)
(* chosen word in front of a chosen layer and runs the permutation         *)
(* backwards from there, so that every internal state of either schedule   *)
(* that a data-dependent deviation could wait for is reached on purpose.   *)
(***************************************************************************)
EXTENDS Decaf377, Json, IOUtils

Ref(n) == JsonDeserialize(IOEnv.SPECDIR \o "/params/rate_" \o ToString(n) \o ".json")
Seed == HexOf(1 + atoi(IOEnv.VERIF_SEED))
\* pseudo-random field element number (a, b, c) of this run
\* (two powers: one alone keeps the multiples that shifting the numeral makes)
Rnd(a, b, c) ==
  FPow(P, FAdd(P, FPow(P, Seed \o "f" \o HexOf(a) \o "e" \o HexOf(b) \o "d" \o HexOf(c), "10001"), "35"), "10001")
RndBelow(k, a, b, c) == IntOf(IMod(Rnd(a, b, c), HexOf(k)))
RndState(t, a, b) == [i \in 1..t |-> Rnd(a, b, i)]

PMinus(h) == FSub(P, "0", h)
Specials ==
  << "0", "1", "2", "3", "11", PMinus("1"), PMinus("2"), PMinus("11"),
     FInv0(P, "2"), FNeg(P, FInv0(P, "2")),
     "ff", "100", "ffff", "10000", "ffffffff", "100000000",
     "ffffffffffffffff", "10000000000000000",
     "ffffffffffffffffffffffffffffffff", "100000000000000000000000000000000",
     "ffffffffffffffffffffffffffffffffffffffffffffffff",
     "1000000000000000000000000000000000000000000000000",
     FRed(P, "10000000000000000000000000000000000000000000000000000000000000000"),
     "1000000000000000000000000000000000000000000000000000000000000000" >>
Extra == IF IOEnv.EXTRA = "" THEN <<>> ELSE JsonDeserialize(IOEnv.EXTRA)
Values == Specials \o Extra

PatternInputs(n) ==
  LET t == n + 1
      Pos == [i \in 1..t |-> i]
      Masks == SetToSeq(SUBSET (1..t))
      Pairs == SetToSeq({ij \in (1..t) \X (1..t) : ij[1] < ij[2]})
      V == Values
      one(v) == [i \in 1..t |-> V[v]]
      at(v, i, rest) == [j \in 1..t |-> IF j = i THEN V[v] ELSE IF rest = "r" THEN Rnd(v, i, j) ELSE rest]
      mask(k, c, r) == [j \in 1..t |-> IF j \in Masks[k] THEN c ELSE Rnd(r, k, j)]
      pair(k, f) == LET s == RndState(t, 7000 + f, k) a == Pairs[k][1] b == Pairs[k][2] IN
        [s EXCEPT ![b] = CASE f = 1 -> s[a] [] f = 2 -> FNeg(P, s[a]) [] f = 3 -> FAdd(P, s[a], "1")
                           [] f = 4 -> FMul(P, s[a], "2") [] f = 5 -> FInv0(P, s[a])
                           [] f = 6 -> FMul(P, s[a], s[a])]
      \* low or high halves of two words agree
      near(k, f) == LET s == RndState(t, 7100 + f, k) a == Pairs[k][1] b == Pairs[k][2] IN
        [s EXCEPT ![b] = CASE f = 1 -> FRed(P, IAdd(IMod(s[a], "10000000000000000"), IMul(IMod(s[b], "1000000000000000000000000000000"), "10000000000000000")))
                           [] f = 2 -> FRed(P, IAdd(ISub(s[a], IMod(s[a], "10000000000000000")), IMod(s[b], "10000000000000000")))]
  IN [v \in 1..Len(V) |-> one(v)]
     \o Concat([v \in 1..Len(V) |-> Concat([i \in 1..t |-> <<at(v, i, "r"), at(v, i, "0"), at(v, i, "1")>>])])
     \o Concat([k \in 1..Len(Masks) |-> <<mask(k, "0", 6001), mask(k, Rnd(6002, k, 0), 6002), mask(k, "1", 6003), mask(k, PMinus("1"), 6004)>>])
     \o Concat([k \in 1..Len(Pairs) |-> [f \in 1..6 |-> pair(k, f)] \o [f \in 1..2 |-> near(k, f)]])
     \* arithmetic progressions, repeated and increasing words
     \o [d \in 1..6 |-> [j \in 1..t |-> HexOf(j * d)]]
     \o [d \in 1..6 |-> [j \in 1..t |-> HexOf((t - j) * d)]]

BitInputs(n) ==
  LET t == n + 1 IN
  Concat([b \in 1..253 |->
    LET x == IPow("2", b - 1) IN
    << [RndState(t, 8001, b) EXCEPT ![(b % t) + 1] = FRed(P, x)],
       [RndState(t, 8002, b) EXCEPT ![((b + 1) % t) + 1] = FRed(P, ISub(x, "1"))],
       [RndState(t, 8003, b) EXCEPT ![((b + 2) % t) + 1] = PMinus(FRed(P, x))],
       [j \in 1..t |-> IF j = ((b + 3) % t) + 1 THEN FRed(P, x) ELSE "0"] >>])

RandomInputs(n, N) == [k \in 1..N |-> RndState(n + 1, 9000, k)]

\* parameter constants as inputs, in every position round robin
ConstInputs(n) ==
  LET q == Ref(n) t == n + 1
      C == Flat(q.mds) \o Flat(q.arc) \o Flat(q.oarc)
  IN [k \in 1..Len(C) |-> [RndState(t, 9100, k) EXCEPT ![(k % t) + 1] = IF k % 2 = 0 THEN C[k] ELSE FNeg(P, C[k])]]

Sched(n, sc) == IF sc = "ref" THEN RefSchedule(Ref(n)) ELSE OptSchedule(Ref(n))

\* value x at word i in front of layer k, every k and i; random elsewhere
BoundaryInputs(n, sc, x, tag) ==
  LET t == n + 1
      S == Force(Sched(n, sc))
      U == Force(UndoSchedule(P, S))
      st(k, i) == [RndState(t, tag * 131072 + k, i) EXCEPT ![i] = x]
  IN Concat([k \in 1..Len(S) |-> [i \in 1..t |-> Unrun(P, Alpha17, U, Len(S), Force(st(k, i)), k - 1)]])
\* chosen output states, run backwards to their inputs
FinalInputs(n) ==
  LET t == n + 1
      S == Force(Sched(n, "ref"))
      U == Force(UndoSchedule(P, S))
      back(s) == Unrun(P, Alpha17, U, Len(S), Force(s), Len(S))
      V == Values
  IN Concat([k \in 1..Len(V) |-> << back([i \in 1..t |-> V[k]]) >>
        \o [i \in 1..t |-> back([RndState(t, 9300 + k, i) EXCEPT ![i] = V[k]])]
        \o [i \in 1..t |-> back([j \in 1..t |-> IF i = j THEN V[k] ELSE "0"])]])
\* two words equal, or all words equal to x, in front of layer k
TieInputs(n, sc) ==
  LET t == n + 1
      S == Force(Sched(n, sc))
      U == Force(UndoSchedule(P, S))
      tie(k, i) == LET s == RndState(t, 777000 + k, i) IN [s EXCEPT ![(i % t) + 1] = s[i]]
      back(s, k) == Unrun(P, Alpha17, U, Len(S), Force(s), k - 1)
  IN Concat([k \in 1..Len(S) |->
        [i \in 1..t |-> back(tie(k, i), k)]
        \o << back([j \in 1..t |-> "0"], k), back([j \in 1..t |-> "1"], k),
              back([j \in 1..t |-> Rnd(778000, k, 0)], k) >>])
=============================================================================
