------------------------ MODULE TraceGenericProgram ------------------------
(***************************************************************************)
(* Recorded programs of instances over arbitrary parameters, for every     *)
(* input at once: the unoptimized permutation means the schedule of the    *)
(* base parameters, the optimized one the schedule of the optimized        *)
(* parameters, and the circuit's state words the former, with every        *)
(* constraint satisfied.  With the inverse S-box the programs are those of *)
(* inputs that bring no zero to an S-box.                                  *)
(***************************************************************************)
EXTENDS CircuitProgram, Decaf377, Json, IOUtils
VARIABLES file, l, sets, yes
NFiles == atoi(IOEnv.NFILES)
Traces == Force([f \in 1..NFiles |-> ndJsonDeserialize(IOEnv.OUT \o "/gp_" \o ToString(f) \o ".ndjson")])
Exp(e) == IF e.alpha = "inv" THEN "inv" ELSE e.e
Same(c, q, sched) ==
  LET S == PStart(c.t)
      want == PSchedule(P, Exp(c), sched, S.M, Words(c.t))
      got == PRun(P, want.M, c.t, q.ops, q.out)
  IN /\ q.fail = "" /\ (q.looks = 0 \/ c.alpha = "inv")
     /\ SubSeq(got.s, 1, c.t) = want.s /\ got.s[c.t + 1] = want.s[2]
Holds(c, e) ==
  CASE e.op = "set" -> TRUE
    [] e.op = "prog" -> Same(c, e.unopt, RefSchedule(c)) /\ Same(c, e.opt, OptSchedule(c))
    [] e.op = "circprog" -> JudgeIn(P, e.p, c.t, RefSchedule(c), Exp(c), FALSE) = "holds"
Init == file \in 1..NFiles /\ l = 1 /\ sets = 0 /\ yes = 0
Next == /\ l <= Len(Traces[file]) /\ file' = file /\ l' = l + 1
        /\ LET e == Traces[file][l] IN
           IF e.op = "set" THEN sets' = l /\ yes' = yes
           ELSE /\ sets' = sets
                /\ LET h == Holds(Traces[file][sets], e) IN
                   /\ yes' = IF h THEN yes + 1 ELSE yes
                   /\ IF h THEN TRUE ELSE JsonSerialize(IOEnv.OUT \o "/unseen_" \o ToString(file) \o "_" \o ToString(l) \o ".json",
                                           [op |-> e.op, t |-> Traces[file][sets].t, e |-> Exp(Traces[file][sets])])
        /\ IF l = Len(Traces[file]) THEN JsonSerialize(IOEnv.OUT \o "/seen_" \o ToString(file) \o ".json", [yes |-> yes']) ELSE TRUE
=============================================================================
