----------------------------- MODULE TraceHist -----------------------------
(***************************************************************************)
(* Recorded histories against the object machine Hasher.  What a call      *)
(* returns is taken from calls made first thing in a fresh process         *)
(* ($WORK/base.json); every event of every history must be a step of the   *)
(* machine with those results.                                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils, Eval
VARIABLES file, l, tab, bad
NFiles == atoi(IOEnv.NFILES)
Base == Force(JsonDeserialize(IOEnv.OUT \o "/base.json"))
\* full output state and hash word per rate, kind and input name
BPerm(n, k, x) == Base[k \o "/" \o x].st
BOut(k, x) == Base[k \o "/" \o x].out
H == INSTANCE Hasher WITH Perm <- BPerm
Traces == Force([f \in 1..NFiles |-> ndJsonDeserialize(IOEnv.OUT \o "/h_" \o ToString(f) \o ".ndjson")])

\* the machine's action behind an event, or none if the caller's data changed
Sound(t, e) ==
  CASE e.op = "reset" -> TRUE
    [] e.op = "new"   -> e.i \notin DOMAIN t
    [] e.op = "drop"  -> e.i \in DOMAIN t
    [] e.op = "read"  -> e.i \in DOMAIN t /\ e.st = t[e.i].st
    [] e.op = "call"  -> e.i \in DOMAIN t /\ t[e.i].n = e.n /\ e.kept /\ e.out = BOut(e.k, e.in)
    [] e.op = "hash"  -> e.kept /\ e.out = BOut("hash", e.in)
    [] e.op = "digest" -> e.d = Base["digest/" \o ToString(e.n)]
    [] e.op = "repeat" -> \A j \in 1..Len(e.ins) : e.outs[j] = <<BOut(e.k, e.ins[j])>>
After(t, e) ==
  CASE e.op = "reset" -> H!Empty
    [] e.op = "new" -> H!Step(t, e)
    [] e.op = "drop" -> H!Step(t, e)
    [] e.op = "call" -> H!Step(t, e)
    [] e.op = "repeat" -> IF e.i = "-" THEN t ELSE [t EXCEPT ![e.i].st = BPerm(e.n, e.k, e.ins[Len(e.ins)])]
    [] OTHER -> t
Init == file \in 1..NFiles /\ l = 1 /\ tab = H!Empty /\ bad = FALSE
Next == /\ ~bad /\ l <= Len(Traces[file]) /\ file' = file
        /\ LET e == Traces[file][l] IN
           IF Sound(tab, e) THEN l' = l + 1 /\ tab' = Force(After(tab, e)) /\ bad' = FALSE
           ELSE /\ bad' = TRUE /\ UNCHANGED <<l, tab>>
                /\ JsonSerialize(IOEnv.OUT \o "/bad_" \o ToString(file) \o ".json", [file |-> file, position |-> l, event |-> e])
Accepted == ~bad
=============================================================================
