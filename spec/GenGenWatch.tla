----------------------------- MODULE GenGenWatch -----------------------------
(***************************************************************************)
(* Generic instances with every parameter and input word left open: which  *)
(* decisions do the permutations take on them?  A look deep inside the     *)
(* permutation depends on the constant added just before it, so that the   *)
(* search (Observe.tla) reaches looks at any layer.                        *)
(***************************************************************************)
EXTENDS GenGeneric
W(from, n) == [k \in 1..n |-> "#" \o ToString(from + k)]
\* numbers of a parameter set: mds, arc, oarc, Mi, v, what, two inverses
Numbers(s) == LET t == s[1] n == s[2] + s[3] IN 3 * t * t + 2 * n * t + 2 * s[3] * (t - 1) + (t - 1) * (t - 1)
OpenExps == <<"5", "inv", "4", "11">>
Open(s, a) ==
  << "set " \o ToString(s[1]) \o " " \o ToString(s[2]) \o " " \o ToString(s[3]) \o " " \o a \o " 128 " \o Join(W(0, Numbers(s))),
     Run1(W(Numbers(s), s[1])) >>
\* (large ones: one line per word is long)
Size(s, a) == Numbers(s) <= (IF Thorough THEN 1200 ELSE IF a = "inv" THEN 70 ELSE IF a = "5" THEN 420 ELSE 200)
Pairs == Force(SelectSeq(Concat([a \in 1..Len(OpenExps) |-> [k \in 1..Len(Widths) |-> <<Widths[k], OpenExps[a]>>]]), LAMBDA x : Size(x[1], x[2])))
Watched == Force(SortSeq(Pairs, LAMBDA x, y : Numbers(x[1]) < Numbers(y[1])))
InitWatch == job = <<0, 0>> /\ done = FALSE
NextWatch ==
  /\ ~done /\ done' = TRUE /\ job' = job
  /\ JsonSerialize(IOEnv.OUT \o "/groups.json",
       [k \in 1..Len(Watched) |->
          LET s == Watched[k][1] a == Watched[k][2] IN
          [n |-> 0, t |-> Numbers(s) + s[1], name |-> ToString(s) \o " " \o a, open |-> Open(s, a)]])
=============================================================================
