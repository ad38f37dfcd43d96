------------------------- MODULE TraceConfigPrograms -------------------------
(***************************************************************************)
(* The programs recorded from hash_n and both permutations in several      *)
(* configurations.  A configuration computes what the default one does on  *)
(* every input when its programs are the same operations, or operations of *)
(* the same meaning, and look at nothing.  Otherwise the recorded values   *)
(* decide (TraceConfigs).                                                  *)
(***************************************************************************)
EXTENDS Program, Decaf377, Json, IOUtils
VARIABLES cfg, n, same
NConfigs == atoi(IOEnv.NCONFIGS)
Recorded == Force([c \in 1..NConfigs |-> Force([k \in Rates |-> ndJsonDeserialize(IOEnv.OUT \o "/cp_" \o ToString(c) \o "_" \o ToString(k) \o ".ndjson")])])
Clear(q) == q.fail = "" /\ q.looks = 0
Alike(k, a, b) ==
  IF ~Clear(a) \/ ~Clear(b) THEN FALSE
  ELSE IF a.ops = b.ops /\ a.out = b.out THEN TRUE
  ELSE LET x == PRun(P, PStart(k + 1).M, k + 1, a.ops, a.out)
           y == PRun(P, x.M, k + 1, b.ops, b.out)
       IN x.s = y.s
Init == cfg \in 2..NConfigs /\ n \in Rates /\ same = "pending"
Next == /\ same = "pending" /\ UNCHANGED <<cfg, n>>
        /\ same' = IF \A i \in 1..3 : Alike(n, Recorded[1][n][i], Recorded[cfg][n][i]) THEN "yes" ELSE "no"
        /\ IF same' = "yes" THEN JsonSerialize(IOEnv.OUT \o "/alike_" \o ToString(cfg) \o "_" \o ToString(n) \o ".json", [n |-> n]) ELSE TRUE
=============================================================================
