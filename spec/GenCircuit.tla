----------------------------- MODULE GenCircuit -----------------------------
(***************************************************************************)
(* Programs for the circuit harness.  Per rate: allocation modes of the    *)
(* operands (constant, public input, witness, linear expression, repeated  *)
(* variable), each first in full and then with other operand values and in *)
(* setup mode; and programs that compose several hashes.                   *)
(***************************************************************************)
EXTENDS Inputs
VARIABLES job, done
Thorough == IOEnv.VERIF_TIER = "thorough"
RECURSIVE Join(_, _)
Join(ss, sep) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Join(Tail(ss), sep)
X(i) == "x" \o ToString(i)
Prog(head, steps) == head \o " ; " \o Join(steps, " ; ")

\* allocation steps for operand i with value val; z.. are helper variables
Alloc(mode, i, val) ==
  CASE mode = "c" -> << "c " \o X(i) \o " " \o val >>
    [] mode = "i" -> << "i " \o X(i) \o " " \o val >>
    [] mode = "w" -> << "w " \o X(i) \o " " \o val >>
    \* a linear expression of value val in an input and a witness
    [] mode = "e" -> << "w z" \o ToString(i) \o " " \o FSub(P, val, "9"),
                        "i y" \o ToString(i) \o " 2",
                        "l " \o X(i) \o " 5 1 z" \o ToString(i) \o " 2 y" \o ToString(i) >>
    \* a constant that is the sum of constants
    [] mode = "k" -> << "c y" \o ToString(i) \o " " \o FSub(P, val, "5"), "l " \o X(i) \o " 5 1 y" \o ToString(i) >>
    \* the variable of operand 1 again (val is ignored)
    [] mode = "a" -> << "l " \o X(i) \o " 0 1 " \o X(1) >>
\* value steps: constants are part of the shape, so they keep their base value
ShapeProg(n, modes, base, vals) ==
  Concat([i \in 1..(n + 1) |-> Alloc(modes[i], i, IF modes[i] \in {"c", "k"} THEN base[i] ELSE vals[i])])
  \o << "h o " \o ToString(n) \o " " \o Join([i \in 1..(n + 1) |-> X(i)], " ") >>

ModeNames == <<"w", "i", "c", "e", "a", "k">>
RndModes(n, k) == [i \in 1..(n + 1) |-> LET m == ModeNames[1 + RndBelow(6, 4000 + n, k, i)] IN IF i = 1 /\ m = "a" THEN "w" ELSE m]
FixedModes(n) == LET t == n + 1 IN
  << [i \in 1..t |-> "w"], [i \in 1..t |-> "i"],
     [i \in 1..t |-> IF i = 1 THEN "c" ELSE "w"], [i \in 1..t |-> IF i = 1 THEN "w" ELSE "c"],
     [i \in 1..t |-> IF i = t THEN "i" ELSE "c"], [i \in 1..t |-> IF i = 1 THEN "w" ELSE "a"],
     [i \in 1..t |-> "e"], [i \in 1..t |-> IF i % 2 = 0 THEN "w" ELSE "i"],
     [i \in 1..t |-> "c"], [i \in 1..t |-> "k"] >>
AllModes(n, S) == SetToSeq([1..(n + 1) -> S])
Modes(n) == FixedModes(n)
            \o (IF n = 1 THEN AllModes(1, {"c", "i", "w", "e", "k"})
                ELSE IF n = 2 \/ (Thorough /\ n < 5) THEN AllModes(n, {"c", "i", "w"}) ELSE <<>>)
            \o [k \in 1..(IF Thorough THEN 30 ELSE 5) |-> RndModes(n, k)]
\* per shape: one full record, one in setup mode, and other values
NVals == IF Thorough THEN 24 ELSE 6
V(k) == Values[1 + (k % Len(Values))]
ValRows(n, tag) ==
  LET t == n + 1 IN
  << [i \in 1..t |-> "0"], [i \in 1..t |-> "1"], [i \in 1..t |-> Rnd(4100, tag, 0)] >>
  \o [k \in 1..NVals |-> [RndState(t, 4200 + tag, k) EXCEPT ![1 + (k % t)] = V(k + tag)]]
  \o [k \in 1..NVals |-> [i \in 1..t |-> V(7 * k + 3 * i + tag)]]
ShapeRecs(n, modes, tag) ==
  LET base == Force(RndState(n + 1, 4300 + n, tag))
      rs == Force(ValRows(n, tag))
      p(head, vals) == Prog(head, ShapeProg(n, modes, base, vals))
      varies == \E i \in 1..(n + 1) : modes[i] \in {"w", "i", "e"}
  IN << p("prove full constraints", base), p("setup brief constraints", base), p("assign brief constraints", rs[3]),
        p("prove brief weight", rs[3]), p("setup brief weight", base), p("prove brief none", base), p("assign brief weight", base) >>
     \o (IF \A i \in 1..(n + 1) : modes[i] \in {"c", "k"} THEN << p("alone brief constraints", base) >> ELSE <<>>)
     \o (IF varies THEN [k \in 1..Len(rs) |-> p("prove brief constraints", rs[k])] ELSE <<>>)
RateProgs(n) == LET ms == Force(Modes(n)) IN Concat([k \in 1..Len(ms) |-> Force(ShapeRecs(n, ms[k], k))])

\* values that meet special internal states, on the all-witness shape
DeepProgs(n) ==
  LET t == n + 1
      base == RndState(t, 4300 + n, 1)
      S == Force(Sched(n, "ref"))
      U == Force(UndoSchedule(P, S))
      at(k, i, x) == Unrun(P, Alpha17, U, Len(S), Force([RndState(t, 4400 + k, i) EXCEPT ![i] = x]), k - 1)
      w == [i \in 1..t |-> "w"]
      sb == SelectSeq([k \in 1..Len(S) |-> k], LAMBDA k : S[k].k \in {"full", "part"})
  IN << Prog("prove full constraints", ShapeProg(n, w, base, base)) >>
     \o Concat([j \in 1..Len(sb) |->
          [i \in 1..(IF S[sb[j]].k = "full" THEN t ELSE 1) |->
             Prog("prove brief constraints", ShapeProg(n, w, base, at(sb[j], i, IF (j + i) % 3 = 0 THEN "1" ELSE IF (j + i) % 3 = 1 THEN "0" ELSE PMinus("1"))))]])

\* --- compositions: pseudo-random programs over all rates -----------------------
CName(k) == "v" \o ToString(k)
CStep(w, k, tag) ==
  LET r(x, c) == RndBelow(x, 4500 + w, k, c)
      prev(c) == CName(1 + r(k - 1, c))
      kind == IF k <= 3 THEN r(3, 1) ELSE 3 + r(9, 1)
      val == IF tag = 0 \/ kind = 2 THEN Rnd(4600 + w, k, 0) ELSE IF r(3, 40 + tag) = 0 THEN V(r(97, 50 + tag)) ELSE Rnd(4600 + w, k, tag)
  IN CASE kind = 0 \/ kind = 3 -> "w " \o CName(k) \o " " \o val
       [] kind = 1 \/ kind = 4 -> "i " \o CName(k) \o " " \o val
       [] kind = 2 -> "c " \o CName(k) \o " " \o val
       [] kind = 5 -> "l " \o CName(k) \o " " \o Rnd(4700 + w, k, 1) \o " " \o Rnd(4700 + w, k, 2) \o " " \o prev(2) \o " " \o Rnd(4700 + w, k, 3) \o " " \o prev(3)
       [] OTHER -> LET n == 1 + r(IF w % 3 = 0 THEN 7 ELSE 3, 4) IN
                   "h " \o CName(k) \o " " \o ToString(n) \o " " \o Join([i \in 1..(n + 1) |-> prev(10 + i)], " ")
CLen(w) == 7 + (w % 5)
\* the first variable is a witness, so that few values stay constant
Compose(w, tag) == << "w v1 " \o Rnd(4800 + w, 1, tag) >> \o [j \in 1..(CLen(w) - 1) |-> CStep(w, j + 1, tag)]
ComposeProgs(w) ==
  << Prog("prove full constraints", Compose(w, 0)), Prog("setup brief constraints", Compose(w, 0)), Prog("assign brief constraints", Compose(w, 1)) >>
  \o [tag \in 1..(IF Thorough THEN 12 ELSE 4) |-> Prog("prove brief constraints", Compose(w, tag))]
  \o << Prog("setup brief none", Compose(w, 0)), Prog("prove brief weight", Compose(w, 1)),
        Prog("prove full none", Compose(w, 0)), Prog("prove full weight", Compose(w, 0)) >>
\* equality constraints and inputs behind a gadget; the same call twice
FixedProgs ==
  << Prog("prove full constraints", <<"w a 3", "h o 1 a a", "i b " \o "3", "h q 1 b a", "q o q", "w c 7", "h r 2 o q c">>),
     Prog("setup brief constraints", <<"w a 3", "h o 1 a a", "i b " \o "3", "h q 1 b a", "q o q", "w c 7", "h r 2 o q c">>),
     Prog("prove full constraints", <<"c d 5", "w a 3", "h o 1 d a", "h q 1 d a", "h r 1 d o", "h s 1 d r", "q o q">>),
     Prog("prove full constraints", Concat([n \in 1..7 |-> << "w a" \o ToString(n) \o " " \o Rnd(4900, n, 1),
           "h o" \o ToString(n) \o " " \o ToString(n) \o " " \o Join([i \in 1..(n + 1) |-> IF i <= n THEN "a" \o ToString(i) ELSE IF n = 1 THEN "a1" ELSE "o" \o ToString(n - 1)], " ") >>])) >>

\* --- contexts: what is in the constraint system before the hash --------------
Vn(c, k) == c \o ToString(k)
CtxIn(N)   == [k \in 1..N |-> "i " \o Vn("g", k) \o " " \o HexOf(k)]
CtxWit(N)  == [k \in 1..N |-> "w " \o Vn("g", k) \o " " \o HexOf(k)]
CtxCon(N)  == [k \in 1..N |-> "c " \o Vn("g", k) \o " " \o HexOf(k)]
CtxMix(N)  == [k \in 1..N |-> (IF k % 3 = 0 THEN "c " ELSE IF k % 3 = 1 THEN "i " ELSE "w ") \o Vn("g", k) \o " " \o HexOf(k)]
CtxRows(N) == <<"w g1 7">> \o [k \in 1..N |-> "q g1 g1"]
CtxCall(N, m) == <<"w g1 7", "i g2 9">> \o [k \in 1..N |-> "h " \o Vn("g", k + 2) \o " " \o ToString(m) \o " " \o Join([i \in 1..(m + 1) |-> Vn("g", IF i = 2 THEN k + 1 ELSE 1)], " ")]
CtxLong(N) == [k \in 1..N |-> (IF k % 2 = 0 THEN "w " ELSE "i ") \o Vn("g", k) \o " " \o HexOf(k)]
              \o << "l s 3 " \o Join([k \in 1..N |-> HexOf(k) \o " " \o Vn("g", k)], " ") >>
\* hash with operands of their own, and once more with operands from the context
Body(n, tag, last) ==
  << "w y1 " \o Rnd(4950, n, tag), "i y2 " \o Rnd(4951, n, tag), "w y3 " \o Rnd(4952, n, tag),
     "h o1 " \o ToString(n) \o " " \o Join([i \in 1..(n + 1) |-> Vn("y", 1 + ((i - 1) % 3))], " "),
     "h o2 " \o ToString(n) \o " " \o Join([i \in 1..(n + 1) |-> IF i = 2 THEN last ELSE IF i = 1 THEN "y2" ELSE "o1"], " ") >>
CtxSizes == IF Thorough THEN <<1, 2, 3, 5, 9, 17, 33, 65, 129, 257>> ELSE <<3, 17, 65, 257>>
Contexts(n) ==
  Concat([k \in 1..Len(CtxSizes) |-> LET N == CtxSizes[k] IN
     << <<CtxIn(N), "g1">>, <<CtxWit(N), "g1">>, <<CtxCon(N), "g1">>, <<CtxMix(N), "g1">>, <<CtxRows(N), "g1">>, <<CtxLong(N), "s">> >>])
  \o (IF n > 4 /\ ~Thorough THEN <<>> ELSE << <<CtxCall(6, 1), "g8">>, <<CtxCall(2, 7), "g4">>, <<CtxCall(3, 3), "g5">> >>)
CtxProgs(n) ==
  LET XX == Force(Contexts(n)) IN
  Concat([k \in 1..Len(XX) |->
     << Prog("prove full constraints", XX[k][1] \o Body(n, 1, XX[k][2])),
        Prog("setup brief constraints", XX[k][1] \o Body(n, 1, XX[k][2])),
        Prog("prove brief constraints", XX[k][1] \o Body(n, 2, XX[k][2])) >>])

\* --- inputs that turn a decision of the gadget (found by GenObserve) ----------
Watched == Force(JsonDeserialize(IOEnv.OUT \o "/watch.json"))      \* [n, modes, ins]
\* (constants are part of a circuit's shape: such inputs need a full record each)
WatchProgs(g) ==
  LET W == Watched[g] t == W.n + 1
      open == \A i \in 1..t : W.modes[i] # "c"
      all == \A i \in 1..t : W.modes[i] = "c"
      other(x, k) == [i \in 1..t |-> IF W.modes[i] = "c" THEN x[i] ELSE Rnd(4960, k, i)]
      first(k) == Prog("prove full constraints", ShapeProg(W.n, W.modes, other(W.ins[k], k), other(W.ins[k], k)))
      turn(k) == Prog("prove brief constraints", ShapeProg(W.n, W.modes, W.ins[k], W.ins[k]))
      few == IF Thorough THEN 60 ELSE 12
      step == (Len(W.ins) + few - 1) \div few
  IN IF open THEN << first(1) >> \o [k \in 1..Len(W.ins) |-> turn(k)]
     ELSE Concat([j \in 1..(Len(W.ins) \div step) |-> LET k == 1 + (j - 1) * step IN << first(k) >> \o (IF all THEN <<>> ELSE << turn(k) >>)])

NCompose == IF Thorough THEN 48 ELSE 10
Jobs == {<<"rate", n>> : n \in Rates} \cup {<<"ctx", n>> : n \in Rates} \cup {<<"deep", n>> : n \in Rates} \cup {<<"comp", w>> : w \in 1..NCompose} \cup {<<"fixed", 0>>}
        \cup {<<"watch", g>> : g \in {g \in 1..Len(Watched) : Watched[g].ins # <<>>}}
Programs(j) == CASE j[1] = "rate" -> RateProgs(j[2]) [] j[1] = "deep" -> DeepProgs(j[2]) [] j[1] = "ctx" -> CtxProgs(j[2])
                 [] j[1] = "comp" -> ComposeProgs(j[2]) [] j[1] = "fixed" -> FixedProgs [] j[1] = "watch" -> WatchProgs(j[2])
Init == job \in Jobs /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ job' = job
        /\ JsonSerialize(IOEnv.OUT \o "/prog_" \o job[1] \o "_" \o ToString(job[2]) \o ".json", Force(Programs(job)))
=============================================================================
