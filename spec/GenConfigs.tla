----------------------------- MODULE GenConfigs -----------------------------
(***************************************************************************)
(* Chooses configurations to build: greedily, until every pair of settings *)
(* (feature on or off, kind of build) that some configuration has is had   *)
(* by a chosen one.  Thorough: every effective set.                        *)
(*                                                                         *)
(* Kinds of build: debug and release; "hardened", a release build for size *)
(* with overflow checks that aborts on panics; "word32", a 32-bit target   *)
(* (which has no source of randomness, so only sets without Arkworks).     *)
(***************************************************************************)
EXTENDS Features
VARIABLE done
\* smallest request for each effective configuration
Reqs == SetToSortSeq(SUBSET Requests, LAMBDA a, b : Cardinality(a) < Cardinality(b))
Effs == Force([k \in 1..Len(Reqs) |-> Force(Effective(Reqs[k]))])
Chosen == Force({k \in 1..Len(Reqs) : ~ \E j \in 1..(k - 1) : Effs[j] = Effs[k]})
Random == {<<P, "arkworks">>, <<P, "parallel">>, <<P, "r1cs">>, <<M, "std">>, <<M, "r1cs">>, <<D, "std">>, <<D, "arkworks">>}
Possible(k, kind) == kind = "word32" => Effs[k] \cap Random = {}
Kinds == {"debug", "release", "hardened", "word32"}
Plain == {"debug", "release"}
Configs == Force({c \in Chosen \X Kinds : Possible(c[1], c[2])})
Name(x) == x[1] \o "/" \o x[2]
Lits(c) == {(IF s \in Effs[c[1]] THEN "+" ELSE "-") \o Name(s) : s \in Settings} \cup {c[2]}
LitsOf == Force([c \in Configs |-> Force(Lits(c))])
PairsOf == Force([c \in Configs |-> Force({x \o " " \o y : x \in LitsOf[c], y \in LitsOf[c]})])
Rank(k) == CASE k = "debug" -> 1 [] k = "release" -> 2 [] k = "hardened" -> 3 [] OTHER -> 4
RECURSIVE Greedy(_, _, _)
Greedy(from, left, out) ==
  IF left = {} THEN out
  ELSE LET gain == Force([c \in from |-> Cardinality(PairsOf[c] \cap left)])
           best == CHOOSE c \in from : \A d \in from : gain[d] < gain[c] \/ (gain[d] = gain[c] /\ (d[1] > c[1] \/ (d[1] = c[1] /\ Rank(c[2]) <= Rank(d[2]))))
       IN Greedy(from, Force(left \ PairsOf[best]), Append(out, best))
PlainOnes == Force({c \in Configs : c[2] \in Plain})
Others == Force(Configs \ PlainOnes)
Default == CHOOSE c \in Configs : Reqs[c[1]] = {<<P, "default">>} /\ c[2] = "debug"
Bare == CHOOSE c \in Configs : Reqs[c[1]] = {} /\ c[2] = "release"
Start == <<Default, Bare>>
Pairs(S) == UNION {PairsOf[c] : c \in S}
Cover == Greedy(PlainOnes, Force(Pairs(PlainOnes) \ Pairs(ToSet(Start))), Start)
OtherCover == Greedy(Others, Force(Pairs(Others) \ Pairs(PlainOnes)), <<>>)
\* thorough: besides the cover, every effective set in one profile
Alternate(c) == (c[1] % 2 = 0) <=> (c[2] = "debug")
Rest(cv) == SetToSeq({c \in PlainOnes : Alternate(c)} \ ToSet(cv))
Picked == LET cv == Force(Cover) IN
          (IF IOEnv.VERIF_TIER = "thorough" THEN cv \o Rest(cv) ELSE cv) \o OtherCover
Init == done = FALSE
Next == /\ ~done /\ done' = TRUE
        /\ JsonSerialize(IOEnv.OUT \o "/configs.json",
             LET pk == Force(Picked) IN
             [effective |-> Cardinality(Chosen), pairs |-> Cardinality(Pairs(Configs)),
              configs |-> [i \in 1..Len(pk) |-> [request |-> SetToSeq({Name(x) : x \in Reqs[pk[i][1]]}),
                              effective |-> SetToSeq({Name(x) : x \in Effs[pk[i][1]]}), profile |-> pk[i][2]]]])
=============================================================================
