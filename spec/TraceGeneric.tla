---------------------------- MODULE TraceGeneric ----------------------------
(***************************************************************************)
(* Recorded runs of instances over arbitrary parameters.  The state holds  *)
(* the parameters of the current instance, as its "set" event showed them, *)
(* and those of the instances put aside; every run must give what the two  *)
(* schedules of Poseidon.tla give on exactly the current parameters, and   *)
(* every circuit the unoptimized result, whatever other instances were     *)
(* made, used or dropped before, and wherever in memory they are.          *)
(***************************************************************************)
EXTENDS Decaf377, Json, IOUtils
VARIABLES file, l, cur, aside, bad
NFiles == atoi(IOEnv.NFILES)
Traces == Force([f \in 1..NFiles |-> ndJsonDeserialize(IOEnv.OUT \o "/g_" \o ToString(f) \o ".ndjson")])
Exp(e) == IF e.alpha = "inv" THEN ISub(P, "2") ELSE e.e
Shown(e) == Force([e |-> Exp(e), ref |-> RefSchedule(e), opt |-> OptSchedule(e)])
Named(n) == aside[CHOOSE k \in 1..Len(aside) : aside[k][1] = n][2]
Without(n) == SelectSeq(aside, LAMBDA x : x[1] # n)
Wanted(e) ==
  CASE e.op = "run" -> LET u == Run(P, cur.e, cur.ref, e.in) o == Run(P, cur.e, cur.opt, e.in)
                       IN [ust |-> u, unopt |-> u[2], ost |-> o, opt |-> o[2]]
    [] e.op = "half" -> LET s == Run(P, cur.e, IF e.kind = "opt" THEN cur.opt ELSE cur.ref, e.in) IN [st |-> s, out |-> s[2]]
    [] e.op = "circ" -> LET u == Run(P, cur.e, cur.ref, e.in) IN [st |-> u, h |-> u[2], sat |-> TRUE]
    [] e.op = "chain" -> LET u == Run(P, cur.e, cur.ref, e.in) o == Named(e.name)
                         IN [st |-> u, then |-> Run(P, o.e, o.ref, u), again |-> u, sat |-> TRUE]
Sound(e) ==
  CASE e.fail # "" -> FALSE
    [] e.op \in {"set", "keep", "twin", "drop"} -> TRUE
    [] e.op = "use" -> Shown(e) = Named(e.name)
    [] OTHER -> LET x == Force(Wanted(e)) IN \A f \in DOMAIN x : e[f] = x[f]
Init == file \in 1..NFiles /\ l = 1 /\ cur = <<>> /\ aside = <<>> /\ bad = FALSE
Next == /\ ~bad /\ l <= Len(Traces[file]) /\ file' = file
        /\ LET e == Traces[file][l] IN
           IF Sound(e)
           THEN /\ l' = l + 1 /\ bad' = FALSE
                /\ cur' = CASE e.op = "set" -> Shown(e) [] e.op = "use" -> Named(e.name) [] e.op \in {"keep", "drop"} -> <<>> [] OTHER -> cur
                /\ aside' = CASE e.op \in {"keep", "twin"} -> Append(Without(e.name), <<e.name, cur>>) [] e.op = "use" -> Without(e.name) [] OTHER -> aside
           ELSE /\ bad' = TRUE /\ UNCHANGED <<l, cur, aside>>
                /\ JsonSerialize(IOEnv.OUT \o "/bad_" \o ToString(file) \o ".json", [file |-> file, position |-> l, event |-> e,
                      expected |-> IF e.op \in {"set", "use", "keep", "twin", "drop"} THEN [x |-> "parameters"] ELSE Wanted(e)])
Accepted == ~bad
=============================================================================
