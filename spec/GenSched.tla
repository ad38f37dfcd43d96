----------------------------- MODULE GenSched -----------------------------
(***************************************************************************)
(* Interleavings of calls, as plans for the scheduled harness, which lets  *)
(* one thread at a time run a chosen number of field operations.           *)
(*   one     thread 0 stops after k operations, thread 1 runs its call,    *)
(*           thread 0 goes on; k over the whole call                       *)
(*   both    both stop, at the same operation or next to it, and go on in  *)
(*           either order                                                  *)
(*   grid    every order of G blocks of each call (Interleave), the grid   *)
(*           moved by k operations                                         *)
(*   turns   turns of k operations                                         *)
(*   three   three threads, nested                                         *)
(* PHASE ask writes commands that count the operations of each call.       *)
(***************************************************************************)
EXTENDS GenHist
Merges == INSTANCE Interleave WITH G <- 4, in <- 0, st <- 0, at <- 0, order <- 0

Kinds == <<"hash", "opt", "unopt">>
Steps == Force(JsonDeserialize(IOEnv.OUT \o "/steps.json"))
N(n, k) == Steps[k \o ToString(n)]
S(k) == ToString(k)
Call(k, n, x) == k \o " " \o S(n) \o " " \o Name(n, x)
Line(from, to, by, calls, before, plan, after) ==
  "sweep " \o S(from) \o " " \o S(to) \o " " \o S(by) \o " | " \o calls \o " | " \o before \o " | " \o plan \o " | " \o after
Turn(t, base, coef) == S(t) \o " " \o S(base) \o " " \o S(coef)
All(t) == S(t) \o " all 0"

\* kinds of the two calls, rate of the second, inputs, what ran before
Pairs2(n) ==
  LET m == (n % 7) + 1 IN
  << [a |-> "hash", b |-> "hash", m |-> n, x |-> 1, y |-> 14, pre |-> ""],
     [a |-> "hash", b |-> "hash", m |-> n, x |-> 1, y |-> 2, pre |-> Call("hash", n, 14)],
     [a |-> "hash", b |-> "hash", m |-> n, x |-> 1, y |-> 14, pre |-> Call("hash", n, 1)],
     [a |-> "hash", b |-> "hash", m |-> n, x |-> 3, y |-> 3, pre |-> ""],
     [a |-> "hash", b |-> "hash", m |-> m, x |-> 1, y |-> 1, pre |-> ""],
     [a |-> "hash", b |-> "unopt", m |-> n, x |-> 1, y |-> 14, pre |-> ""],
     [a |-> "opt", b |-> "opt", m |-> n, x |-> 1, y |-> 14, pre |-> ""],
     [a |-> "opt", b |-> "unopt", m |-> n, x |-> 14, y |-> 1, pre |-> ""],
     [a |-> "unopt", b |-> "opt", m |-> n, x |-> 1, y |-> 14, pre |-> ""],
     [a |-> "unopt", b |-> "unopt", m |-> m, x |-> 1, y |-> 14, pre |-> ""],
     [a |-> "opt", b |-> "opt", m |-> m, x |-> 1, y |-> 1, pre |-> Call("opt", m, 1)] >>

Budget == IF Thorough THEN 100000 ELSE 90
Edge == 24
\* k over 0..hi: all of it, or its ends and a sample between
Ranges(hi, w) ==
  IF hi <= Budget + 2 * Edge THEN <<<<0, hi, 1>>>>
  ELSE LET by == ((hi - 2 * Edge) \div Budget) + 1 IN
       <<<<0, Edge - 1, 1>>, <<Edge + RndBelow(by, 8100, w, hi), hi - Edge, by>>, <<hi - Edge + 1, hi, 1>>>>
Over(rs, L(_, _, _)) == [i \in 1..Len(rs) |-> L(rs[i][1], rs[i][2], rs[i][3])]

Sweeps(n, i) ==
  LET p == Force(Pairs2(n)[i])
      na == N(n, p.a)  nb == N(p.m, p.b)
      two == "0 " \o Call(p.a, n, p.x) \o " ; 1 " \o Call(p.b, p.m, p.y)
      three == two \o " ; 2 " \o Call(p.a, n, 15)
      after == Call(p.a, n, p.x) \o " ; " \o Call(p.b, p.m, p.y)
      w == 16 * n + i
      few == IF Thorough THEN 1 ELSE 10
      one == Over(Ranges(na, w), LAMBDA f, t, by : Line(f, t, by, two, p.pre, Join(<<Turn(0, 0, 1), All(1), All(0)>>), after))
      both(d, z) == Over(Ranges(IF na < nb THEN na ELSE nb, w + 1000 * (d + 2)), LAMBDA f, t, by :
                Line(f, t, by, two, p.pre, Join(<<Turn(0, 0, 1), Turn(1, d, 1), All(z), All(1 - z)>>), after))
      ds == IF Thorough THEN <<-1, 0, 1, 2>> ELSE <<(w % 4) - 1>>
      grid(m, k) == Line(((na \div 4) * k) \div 5, ((na \div 4) * k) \div 5, 1, two, p.pre,
                Join([j \in 1..Len(m) |-> IF j = 1 THEN Turn(m[j], (IF m[j] = 0 THEN na ELSE nb) \div 4, 1)
                                           ELSE Turn(m[j], (IF m[j] = 0 THEN na ELSE nb) \div 4, 0)]), after)
      orders == SetToSeq(Merges!Merges(4, 4))
      turns(c) == Line(1, 40, IF Thorough THEN 1 ELSE 7, two, p.pre, Join(<<Turn(0, c, 0)>> \o [j \in 1..60 |-> Turn(j % 2, 0, 1)]), after)
      nested == Line(RndBelow(few, 8101, w, 0), na, (na \div (Budget \div few)) + 1, three, p.pre,
                Join(<<Turn(0, 0, 1), Turn(1, RndBelow(nb, 8102, w, 1), 0), All(2), All(1), All(0)>>), after)
  IN one \o Concat([d \in 1..Len(ds) |-> both(ds[d], d % 2)])
     \o Concat([k \in 1..(IF Thorough THEN 5 ELSE 1) |-> [j \in 1..Len(orders) |-> grid(orders[j], k + (w % 5))]])
     \o <<turns(0), turns(RndBelow(na, 8103, w, 2)), nested>>

VARIABLE sent
InitS == job \in (1..7) /\ done = FALSE /\ sent = 0
Ask(n) == [i \in 1..3 |-> "count " \o Kinds[i] \o " " \o S(n) \o " " \o Name(n, 1)]
NextS == /\ ~done /\ done' = TRUE /\ UNCHANGED job
         /\ IF IOEnv.PHASE = "ask" THEN JsonSerialize(IOEnv.OUT \o "/ask_" \o S(job) \o ".json", Ask(job)) /\ sent' = 3
            ELSE LET L == Force(Concat([i \in 1..Len(Pairs2(job)) |-> Sweeps(job, i)])) IN
                 JsonSerialize(IOEnv.OUT \o "/sched_" \o S(job) \o ".json", L) /\ sent' = Len(L)
===========================================================================
