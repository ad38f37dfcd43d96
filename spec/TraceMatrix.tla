---------------------------- MODULE TraceMatrix ----------------------------
(***************************************************************************)
(* Recorded matrix histories against the machine MatrixObj: every event    *)
(* must be an enabled step with the machine's result.                      *)
(***************************************************************************)
EXTENDS Decaf377, Linear, Json, IOUtils
M == INSTANCE MatrixObj WITH Fld <- P
VARIABLES file, l, tab, bad
NFiles == atoi(IOEnv.NFILES)
Traces == Force([f \in 1..NFiles |-> ndJsonDeserialize(IOEnv.OUT \o "/m_" \o ToString(f) \o ".ndjson")])
Sound(t, e) ==
  CASE e.fail # "" -> FALSE
    [] e.op = "reset" -> TRUE
    [] e.op = "bad" -> e.accepted = <<>>
    [] OTHER -> IF M!Enabled(t, e) THEN e.res = M!Result(t, e) ELSE FALSE
After(t, e) == CASE e.op = "reset" -> M!Nothing [] e.op = "bad" -> t [] OTHER -> M!Step(t, e)
Init == file \in 1..NFiles /\ l = 1 /\ tab = M!Nothing /\ bad = FALSE
Next == /\ ~bad /\ l <= Len(Traces[file]) /\ file' = file
        /\ LET e == Traces[file][l] IN
           IF Sound(tab, e) THEN l' = l + 1 /\ tab' = Force(After(tab, e)) /\ bad' = FALSE
           ELSE /\ bad' = TRUE /\ UNCHANGED <<l, tab>>
                /\ JsonSerialize(IOEnv.OUT \o "/bad_" \o ToString(file) \o ".json",
                     [file |-> file, position |-> l, event |-> e,
                      expected |-> IF e.op \in {"reset", "bad"} THEN "none" ELSE IF M!Enabled(tab, e) THEN ToString(M!Result(tab, e)) ELSE "not enabled"])
Accepted == ~bad
=============================================================================
