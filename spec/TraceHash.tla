----------------------------- MODULE TraceHash -----------------------------
(***************************************************************************)
(* Validation of recorded hash and permutation events against the          *)
(* specification.  One chain of states per trace file: state l means the   *)
(* first l-1 events of that file are behaviours of the specification.      *)
(*                                                                         *)
(* An event "both" records the three ways the library hashes the same      *)
(* words: hash_n, the optimized and the unoptimized permutation on a fresh *)
(* instance (with the full output states).                                 *)
(***************************************************************************)
EXTENDS Decaf377, Json, IOUtils
VARIABLES file, l, bad
vars == <<file, l, bad>>

NFiles == atoi(IOEnv.NFILES)
Mode == IOEnv.MODE
Trace(f) == ndJsonDeserialize(IOEnv.OUT \o "/tr_" \o ToString(f) \o ".ndjson")
Traces == Force([f \in 1..NFiles |-> Trace(f)])
\* C01: the published parameters; otherwise the parameters the code ships
Params == Force([n \in Rates |->
  JsonDeserialize(IOEnv.PARAMS \o "/rate_" \o ToString(n) \o ".json")])
RefS == Force([n \in Rates |-> RefSchedule(Params[n])])
OptS == Force([n \in Rates |-> OptSchedule(Params[n])])

\* the same layers undone, for C09
RefU == Force([n \in Rates |-> IF Mode = "C09" THEN UndoSchedule(P, RefS[n]) ELSE <<>>])
OptU == Force([n \in Rates |-> IF Mode = "C09" THEN UndoSchedule(P, OptS[n]) ELSE <<>>])
Back(undo, e, st) == Unrun(P, Params[e.n].e, undo, Len(undo), st, Len(undo))

Out(sched, e, q) == Run(P, q.e, sched, e.in)
\* what the specification allows for event e: TRUE or the expected result
Expected(e) ==
  CASE Mode = "C01" -> LET s == Out(RefS[e.n], e, Params[e.n]) IN [hash |-> s[2]]
    [] Mode = "C02" -> [ost |-> e.ust, opt |-> e.ust[2], unopt |-> e.ust[2]]
    [] Mode = "C02full" -> LET s == Out(RefS[e.n], e, Params[e.n]) o == Out(OptS[e.n], e, Params[e.n])
                           IN [ust |-> s, ost |-> o, opt |-> s[2], unopt |-> s[2]]
\* undoing the published layers from the output state gives back the input
Recovered(e) == /\ Len(e.ust) = e.n + 1 /\ Len(e.ost) = e.n + 1
                /\ e.in = Back(RefU[e.n], e, e.ust) /\ e.in = Back(OptU[e.n], e, e.ost)
Explained(e) ==
  /\ e.ust # <<>> \/ Mode = "C01"
  /\ IF Mode = "C09" THEN Recovered(e) ELSE LET x == Expected(e) IN \A f \in DOMAIN x : e[f] = x[f]

Init == file \in 1..NFiles /\ l = 1 /\ bad = FALSE
Next == /\ ~bad /\ l <= Len(Traces[file])
        /\ file' = file
        /\ LET e == Traces[file][l] IN
           IF Explained(e) THEN l' = l + 1 /\ bad' = FALSE
           ELSE /\ l' = l /\ bad' = TRUE
                /\ JsonSerialize(IOEnv.OUT \o "/bad_" \o ToString(file) \o ".json",
                                 [event |-> e, expected |-> IF Mode # "C01" /\ (e.ust = <<>> \/ e.ost = <<>>) THEN "no panic" 
                                              ELSE IF Mode = "C09" /\ e.ost # <<>> THEN [refback |-> Back(RefU[e.n], e, e.ust), optback |-> Back(OptU[e.n], e, e.ost)]
                                              ELSE Expected(e)])
Accepted == ~bad
=============================================================================
