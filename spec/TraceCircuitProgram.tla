------------------------ MODULE TraceCircuitProgram ------------------------
(***************************************************************************)
(* Recorded syntheses, for every value of the allocated operands at once.  *)
(* A record holds the operations the gadget performed on the operands'     *)
(* values, which of their results became the assignment of each variable,  *)
(* and the constraints.  On meanings (Program.tla): every constraint holds *)
(* and the value of the output variable is the published hash.             *)
(***************************************************************************)
EXTENDS CircuitProgram, Decaf377, Json, IOUtils
VARIABLES k, verdict
Params == Force([n \in Rates |-> JsonDeserialize(IOEnv.PARAMS \o "/rate_" \o ToString(n) \o ".json")])
RefS == Force([n \in Rates |-> RefSchedule(Params[n])])
NItems == atoi(IOEnv.NITEMS)
Item(i) == JsonDeserialize(IOEnv.OUT \o "/circprog_" \o ToString(i) \o ".json")

Judge(e) == JudgeIn(P, e, e.n + 1, RefS[e.n], Params[e.n].e, TRUE)
Init == k \in 1..NItems /\ verdict = "pending"
Next == /\ verdict = "pending" /\ k' = k
        /\ verdict' = Judge(Item(k))
        /\ JsonSerialize(IOEnv.OUT \o "/circverdict_" \o ToString(k) \o ".json", [verdict |-> verdict'])
=============================================================================
