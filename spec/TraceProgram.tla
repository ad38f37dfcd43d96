---------------------------- MODULE TraceProgram ----------------------------
(***************************************************************************)
(* Recorded programs of hash_n and of both permutations against the        *)
(* published schedule, for every input at once.                            *)
(*  C01: the meaning of what hash_n returns is the published hash          *)
(*  C02: all words of both permutations have equal meanings, and each      *)
(*       returns its word 1                                                *)
(*  C09: the words of both permutations determine the input words          *)
(* Different meanings are no alarm by themselves: equal functions may be   *)
(* written in ways the machine does not see through.  `same` is recorded.  *)
(***************************************************************************)
EXTENDS Program, Decaf377, Json, IOUtils
VARIABLES n, same
Mode == IOEnv.MODE
Params == Force([k \in Rates |-> JsonDeserialize(IOEnv.PARAMS \o "/rate_" \o ToString(k) \o ".json")])
Recorded == Force([k \in Rates |-> LET q == ndJsonDeserialize(IOEnv.OUT \o "/program_" \o ToString(k) \o ".ndjson")
                                  IN [hash |-> q[1], opt |-> q[2], unopt |-> q[3]]])
Clear(q) == q.fail = "" /\ q.looks = 0
RunOn(M, k, q) == PRun(P, M, k + 1, q.ops, q.out)
M0(k) == PStart(k + 1).M
Published(k) ==
  LET q == Recorded[k].hash
      want == EHash(P, Params[k].e, RefSchedule(Params[k]), M0(k), Words(k + 1))
      got == RunOn(want.M, k, q)
  IN Clear(q) /\ got.s[1] = want.s[2]
SamePermutation(k) ==
  LET o == Recorded[k].opt u == Recorded[k].unopt
      x == RunOn(M0(k), k, o)
      y == RunOn(x.M, k, u)
      t == k + 1
  IN Clear(o) /\ Clear(u) /\ SubSeq(x.s, 1, t) = SubSeq(y.s, 1, t) /\ x.s[t + 1] = x.s[2] /\ y.s[t + 1] = y.s[2]
Bijective(k) ==
  \A q \in {Recorded[k].opt, Recorded[k].unopt} :
     Clear(q) /\ LET x == RunOn(M0(k), k, q) IN Undoes(P, x.M, Force(SubSeq(x.s, 1, k + 1)))
Holds(k) == CASE Mode = "C01" -> Published(k) [] Mode = "C02" -> SamePermutation(k) [] Mode = "C09" -> Bijective(k)
Init == n \in Rates /\ same = "pending"
Next == /\ same = "pending" /\ n' = n
        /\ same' = IF Holds(n) THEN "yes" ELSE "no"
        /\ IF same' = "yes" THEN JsonSerialize(IOEnv.OUT \o "/proved_" \o ToString(n) \o ".json", [n |-> n]) ELSE TRUE
=============================================================================
