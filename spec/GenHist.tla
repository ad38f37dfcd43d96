------------------------------ MODULE GenHist ------------------------------
(***************************************************************************)
(* Histories of the object machine Hasher, written as harness commands.    *)
(*   pool    the inputs: near-duplicates of each other within and across   *)
(*           rates, so that state keyed by part of an input would collide  *)
(*   exh     every history of the machine up to a depth over two ids       *)
(*   walk    long pseudo-random behaviours of the machine                  *)
(*   thr     behaviours of several threads, with own and shared instances  *)
(*   rep     many repetitions of few calls, all rates at once in threads   *)
(*   race    all threads in the same function on the same few inputs       *)
(*   first   the very first calls of a process, by all threads at once     *)
(***************************************************************************)
EXTENDS Inputs
Hs == INSTANCE Hasher WITH Perm <- LAMBDA n, k, x : <<>>
VARIABLES job, done
Thorough == IOEnv.VERIF_TIER = "thorough"

\* --- inputs -----------------------------------------------------------------
Base(n) == [i \in 1..(n + 1) |-> Rnd(5000, 0, i)]
Half == "100000000000000000000000000000000"
\* what an earlier call leaves behind, fed back: its full state, the state
\* after that, and its hash word in the place of each operand
Perm17(n, s) == Run(P, Alpha17, Force(Sched(n, "ref")), s)
Chained(n, b) ==
  LET t == n + 1 o == Force(Perm17(n, b)) o2 == Force(Perm17(n, o)) IN
  << o, o2, [b EXCEPT ![1] = o[2]], [b EXCEPT ![2] = o[2]], [b EXCEPT ![t] = o[2]],
     [o EXCEPT ![1] = b[1]], [i \in 1..t |-> o[2]] >>
Pool(n) ==
  LET t == n + 1 b == Force(Base(n)) IN
  << b,
     [b EXCEPT ![t] = FAdd(P, @, "1")],
     [b EXCEPT ![1] = FAdd(P, @, "1")],
     [b EXCEPT ![2] = FAdd(P, @, Half)],
     [b EXCEPT ![1] = FRed(P, IMod(@, "10000000000000000"))],
     [b EXCEPT ![1] = FRed(P, IMod(@, Half))],
     [b EXCEPT ![t] = FNeg(P, @)],
     [i \in 1..t |-> b[t + 1 - i]],
     [i \in 1..t |-> b[1]],
     [i \in 1..t |-> "0"],
     [i \in 1..t |-> IF i = t THEN "1" ELSE "0"],
     [i \in 1..t |-> IF i = 1 THEN "1" ELSE "0"],
     [i \in 1..t |-> PMinus("1")],
     [i \in 1..t |-> Rnd(5001, n, i)] >>
  \o Chained(n, b)
NPool == 21
\* the inputs a walk favours
Favoured == <<1, 2, 3, 15, 16, 17, 18>>
Name(n, k) == "p" \o ToString(n) \o "_" \o ToString(k)
PoolNames(n) == [k \in 1..NPool |-> Name(n, k)]
RECURSIVE Join(_)
Join(ss) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o " " \o Join(Tail(ss))
Defs == Concat([n \in 1..7 |-> LET q == Force(Pool(n)) IN [k \in 1..NPool |-> "def " \o Name(n, k) \o " " \o Join(q[k])]])

\* --- actions as commands -----------------------------------------------------
Cmd(a) ==
  CASE a.op = "new"  -> "new " \o a.i \o " " \o ToString(a.n)
    [] a.op = "drop" -> "drop " \o a.i
    [] a.op = "read" -> "read " \o a.i
    [] a.op = "call" -> "call " \o a.i \o " " \o a.k \o " " \o a.in
    [] a.op = "hash" -> "hash " \o ToString(a.n) \o " " \o a.in
\* abstract effect on the table of live instances (inputs are only names here)
Tab(tab, a) == CASE a.op = "new" -> tab @@ (a.i :> a.n)
                 [] a.op = "drop" -> [i \in DOMAIN tab \ {a.i} |-> tab[i]]
                 [] OTHER -> tab
Can(tab, a) == CASE a.op = "new" -> a.i \notin DOMAIN tab
                 [] a.op = "hash" -> TRUE
                 [] a.op = "call" -> IF a.i \in DOMAIN tab THEN tab[a.i] = a.n ELSE FALSE
                 [] OTHER -> a.i \in DOMAIN tab

\* --- exhaustive ----------------------------------------------------------------
Alphabet(n1, n2) ==
  {[op |-> "new", i |-> "a", n |-> n1], [op |-> "new", i |-> "b", n |-> n2]}
  \cup {[op |-> o, i |-> i] : o \in {"drop", "read"}, i \in {"a", "b"}}
  \cup {[op |-> "call", i |-> "a", n |-> n1, k |-> k, in |-> Name(n1, x)] : k \in {"opt", "unopt"}, x \in {1, 2}}
  \cup {[op |-> "call", i |-> "b", n |-> n2, k |-> k, in |-> Name(n2, x)] : k \in {"opt", "unopt"}, x \in {1, 15}}
  \cup {[op |-> "hash", n |-> n1, in |-> Name(n1, 1)], [op |-> "hash", n |-> n2, in |-> Name(n2, 1)]}
Extend(A, S) == UNION {{[h |-> Append(s.h, Cmd(a)), tab |-> Tab(s.tab, a)] : a \in {a \in A : Can(s.tab, a)}} : s \in S}
Paths(A, d) == FoldLeft(LAMBDA S, i : Force(Extend(A, S)), {[h |-> <<>>, tab |-> Hs!Empty]}, [i \in 1..d |-> i])
Closing(s) == (IF "a" \in DOMAIN s.tab THEN <<"read a">> ELSE <<>>) \o (IF "b" \in DOMAIN s.tab THEN <<"read b">> ELSE <<>>)
Exhaustive(n1, n2, d) == FlattenSeq(SetToSeq({<<"reset">> \o s.h \o Closing(s) : s \in Paths(Alphabet(n1, n2), d)}))

\* --- walks ----------------------------------------------------------------------
\* one pseudo-random enabled action; ids are the thread's own, shared ids are
\* never created or dropped by a walk
Choose(tab, own, shared, w, s) ==
  LET r(x, c) == RndBelow(x, w, s, c)
      kind == r(100, 1)
      live == SetToSeq({i \in own : i \in DOMAIN tab})
      free == SetToSeq({i \in own : i \notin DOMAIN tab})
      usable == live \o SetToSeq(shared)
      pick(q, c) == q[r(Len(q), c) + 1]
      n == 1 + r(7, 2)
      k == IF r(2, 3) = 0 THEN "opt" ELSE "unopt"
      \* favour few inputs so that calls repeat
      x == IF r(3, 4) # 0 THEN Favoured[1 + r(Len(Favoured), 5)] ELSE 1 + r(NPool, 5)
  IN IF usable = <<>> \/ (kind < 8 /\ free # <<>>) THEN [op |-> "new", i |-> pick(free, 6), n |-> n]
     ELSE IF kind < 12 /\ live # <<>> THEN [op |-> "drop", i |-> pick(live, 6)]
     ELSE IF kind < 30 THEN [op |-> "hash", n |-> n, in |-> Name(n, x)]
     ELSE LET i == pick(usable, 6) IN
          IF kind < 50 THEN [op |-> "read", i |-> i]
          ELSE [op |-> "call", i |-> i, n |-> tab[i], k |-> k, in |-> Name(tab[i], x)]
WalkStep(Z, own, shared, w, s) ==
  LET a == Force(Choose(Z.tab, own, shared, w, s)) IN [tab |-> Tab(Z.tab, a), h |-> Append(Z.h, Cmd(a))]
Walk(tab0, own, shared, w, len) ==
  FoldLeft(LAMBDA Z, s : Force(WalkStep(Z, own, shared, w, s)), [tab |-> tab0, h |-> <<>>], [s \in 1..len |-> s]).h
Ids(p) == {p \o ToString(k) : k \in 1..6}

\* --- threads ----------------------------------------------------------------------
SharedTab(b) == [i \in {"s" \o ToString(n) : n \in 1..7} |-> CHOOSE n \in 1..7 : i = "s" \o ToString(n)]
NThreads == 8
Threads(w, len) ==
  <<"reset">> \o [n \in 1..7 |-> "new s" \o ToString(n) \o " " \o ToString(n)]
  \o Concat([t \in 1..NThreads |->
        LET h == Force(Walk(SharedTab(0), Ids("t" \o ToString(t) \o "x"), DOMAIN SharedTab(0), 1000 * w + t, len))
        IN [k \in 1..Len(h) |-> "@" \o ToString(t) \o " " \o h[k]]])
  \o <<"go">> \o [n \in 1..7 |-> "read s" \o ToString(n)]

\* --- repetition --------------------------------------------------------------------
Rounds == IF Thorough THEN 40000 ELSE 3200
Repeat ==
  <<"reset">> \o Concat([n \in 1..7 |-> <<"new a" \o ToString(n) \o " " \o ToString(n), "new b" \o ToString(n) \o " " \o ToString(n)>>])
  \o Concat([m \in 1..7 |-> LET n == 8 - m names == Join(PoolNames(n)) IN
       << "@" \o ToString(n) \o "u repeat b" \o ToString(n) \o " unopt " \o ToString(n) \o " " \o ToString(Rounds) \o " " \o names,
          "@" \o ToString(n) \o "o repeat a" \o ToString(n) \o " opt " \o ToString(n) \o " " \o ToString(Rounds) \o " " \o names,
          "@" \o ToString(n) \o "h repeat - hash " \o ToString(n) \o " " \o ToString(Rounds) \o " " \o names >>])
  \o <<"go">> \o Concat([n \in 1..7 |-> <<"read a" \o ToString(n), "digest " \o ToString(n)>>])

\* every thread walks through the same four inputs, in its own order
Few(n, t) == LET r(k) == 1 + ((t + (IF t % 2 = 0 THEN k ELSE 3 * k)) % 4) IN Join([k \in 1..4 |-> Name(n, Favoured[r(k)])])
Race(n) ==
  LET K == ToString((IF Thorough THEN 300000 ELSE 24000) \div (n + 1))
      call(t, kind) == "@" \o ToString(t) \o " repeat - " \o kind \o " " \o ToString(n) \o " " \o K \o " " \o Few(n, t)
  IN [t \in 1..NThreads |-> call(t, "hash")] \o <<"go">>
     \o [t \in 1..NThreads |-> call(t, IF t % 4 < 2 THEN "opt" ELSE "unopt")] \o <<"go">>
Races == <<"reset">> \o Concat([n \in 1..7 |-> Race(n)])

\* the first calls of a process: one rate, two rates or a rate per thread; the
\* functions by chance or the same for all
First(w) ==
  LET r(x, t, c) == RndBelow(x, 5000 + w, t, c)
      n(t) == CASE w % 3 = 0 -> 1 + ((w \div 3) % 7)
                [] w % 3 = 1 -> 1 + ((w + (t % 2)) % 7)
                [] OTHER -> 1 + ((w + t) % 7)
      kind(t) == LET c == IF w % 4 = 0 THEN 0 ELSE r(4, t, 1) IN IF c < 2 THEN "hash" ELSE IF c = 2 THEN "opt" ELSE "unopt"
      x(t, c) == Name(n(t), 1 + r(NPool, IF w % 5 = 0 THEN 0 ELSE t, c))
  IN <<"reset">> \o [t \in 1..NThreads |->
        "@" \o ToString(t) \o " repeat - " \o kind(t) \o " " \o ToString(n(t)) \o " 1 " \o x(t, 2) \o " " \o x(t, 3)]
     \o <<"go">>
NFirst == IF Thorough THEN 400 ELSE 60

Digests == [n \in 1..7 |-> "digest " \o ToString(n)]
NWalks == IF Thorough THEN 24 ELSE 6
WalkLen == IF Thorough THEN 6000 ELSE 2500
Pairs == IF Thorough THEN {<<1, 2, 6>>, <<7, 7, 5>>, <<3, 6, 5>>, <<4, 5, 5>>, <<2, 7, 5>>} ELSE {<<1, 1, 5>>, <<7, 2, 4>>, <<3, 6, 4>>, <<5, 4, 4>>}
Jobs == {<<"pool", 0, 0, 0>>, <<"rep", 0, 0, 0>>, <<"race", 0, 0, 0>>}
        \cup {<<"exh", p[1], p[2], p[3]>> : p \in Pairs}
        \cup {<<"walk", w, 0, 0>> : w \in 1..NWalks}
        \cup {<<"first", w, 0, 0>> : w \in 1..NFirst}
        \cup {<<"thr", w, 0, 0>> : w \in 1..(IF Thorough THEN 12 ELSE 3)}
Commands(j) ==
  CASE j[1] = "pool" -> Defs
    [] j[1] = "exh"  -> Exhaustive(j[2], j[3], j[4])
    [] j[1] = "walk" -> <<"reset">> \o Walk(Hs!Empty, Ids("w"), {}, j[2], WalkLen) \o Digests
    [] j[1] = "thr"  -> Threads(j[2], WalkLen \div 5) \o Digests
    [] j[1] = "rep"  -> Repeat
    [] j[1] = "race" -> Races
    [] j[1] = "first" -> First(j[2])
Init == job \in Jobs /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ job' = job
        /\ JsonSerialize(IOEnv.OUT \o "/hist_" \o job[1] \o "_" \o ToString(job[2]) \o ToString(job[3]) \o ".json", Force(Commands(job)))
=============================================================================
