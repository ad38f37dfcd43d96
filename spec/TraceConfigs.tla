---------------------------- MODULE TraceConfigs ----------------------------
(***************************************************************************)
(* One program run in several configurations on the same commands.  A      *)
(* chain of states per configuration and trace file; every event must be   *)
(* the event the default configuration recorded at the same place.         *)
(*                                                                         *)
(* pairs.json: the <<configuration, file>> to judge.  A file that is the   *)
(* same, byte for byte, as that of an earlier configuration is left out.   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, Json, IOUtils, Eval, TLC
VARIABLES cfg, file, l, bad
NFiles == atoi(IOEnv.NFILES)
Listed == JsonDeserialize(IOEnv.OUT \o "/pairs.json")
Pairs == Force({<<Listed[k][1], Listed[k][2]>> : k \in 1..Len(Listed)})
Recorded(c, f) == ndJsonDeserialize(IOEnv.OUT \o "/c" \o ToString(c) \o "_tr_" \o ToString(f) \o ".ndjson")
Traces == Force([p \in Pairs \cup ({1} \X (1..NFiles)) |-> Recorded(p[1], p[2])])
Same(a, b) == DOMAIN a = DOMAIN b /\ \A k \in DOMAIN a : a[k] = b[k]
Init == (\E p \in Pairs : cfg = p[1] /\ file = p[2]) /\ l = 1 /\ bad = FALSE
Next == /\ ~bad /\ l <= Len(Traces[<<1, file>>]) /\ UNCHANGED <<cfg, file>>
        /\ IF l <= Len(Traces[<<cfg, file>>]) /\ Same(Traces[<<1, file>>][l], Traces[<<cfg, file>>][l])
           THEN l' = l + 1 /\ bad' = FALSE
           ELSE /\ bad' = TRUE /\ l' = l
                /\ JsonSerialize(IOEnv.OUT \o "/bad_" \o ToString(cfg) \o "_" \o ToString(file) \o ".json",
                     [config |-> cfg, file |-> file, position |-> l])
Accepted == ~bad
=============================================================================
