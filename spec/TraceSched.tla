---------------------------- MODULE TraceSched ----------------------------
(***************************************************************************)
(* Interleaved runs against the object machine: whatever the plan, every   *)
(* call has one result, that of the same call made first thing in a fresh  *)
(* process, leaves its input alone, and no run hangs or ends the process.  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils, Eval
VARIABLES file, l, bad
NFiles == atoi(IOEnv.NFILES)
Base == Force(JsonDeserialize(IOEnv.OUT \o "/base.json"))
BPerm(n, k, x) == Base[k \o "/" \o x].st
H == INSTANCE Hasher WITH Perm <- BPerm
Traces == Force([f \in 1..NFiles |-> ndJsonDeserialize(IOEnv.OUT \o "/s_" \o ToString(f) \o ".ndjson")])
\* the one answer of a call on a fresh instance (new, call, read, drop)
Answer(c) ==
  LET b == Base[c.k \o "/" \o c.in]
      tab == H!Step(H!Step(H!Empty, [op |-> "new", i |-> "f", n |-> c.n]), [op |-> "call", i |-> "f", n |-> c.n, k |-> c.k, in |-> c.in])
  IN [out |-> b.out, st |-> IF c.k = "hash" THEN <<>> ELSE H!Result(tab, [op |-> "read", i |-> "f"]), kept |-> TRUE]
Sound(e) == /\ e.lost = <<>>
            /\ \A j \in 1..Len(e.calls) : e.outs[j] = <<Answer(e.calls[j])>>
Init == file \in 1..NFiles /\ l = 1 /\ bad = FALSE
Next == /\ ~bad /\ l <= Len(Traces[file]) /\ file' = file
        /\ LET e == Traces[file][l] IN
           IF Sound(e) THEN l' = l + 1 /\ bad' = FALSE
           ELSE /\ bad' = TRUE /\ UNCHANGED l
                /\ JsonSerialize(IOEnv.OUT \o "/sbad_" \o ToString(file) \o ".json", [file |-> file, position |-> l, event |-> e])
Accepted == ~bad
===========================================================================
