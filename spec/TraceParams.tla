---------------------------- MODULE TraceParams ----------------------------
(***************************************************************************)
(* The shipped parameter sets (dumped through the public API into          *)
(* $PARAMS/rate_<n>.json) against their derivation.  One state per rate    *)
(* and item; `bad` collects the fields that differ.                        *)
(***************************************************************************)
EXTENDS Decaf377, Json, IOUtils
VARIABLES n, item, bad
Mode == IOEnv.MODE
Params == Force([k \in Rates |-> JsonDeserialize(IOEnv.PARAMS \o "/rate_" \o ToString(k) \o ".json")])

BaseFields == {"t", "M", "alpha", "e", "rF", "rP", "mds", "arc"}
OptFields == {"oarc", "Mi", "v", "what", "m00", "Mhat", "vv", "ww", "Mprime", "Mdoubleprime", "Minverse", "Mhatinverse"}
\* number of field elements in a parameter set of width t
Count(t) == t*t + 2*39*t + 2*(t-1)*(t-1) + 2*(t-1) + 4*t*t + 1 + 2*31*(t-1)

Shaped(q, M, r, c) == Len(M) = r /\ \A i \in 1..r : Len(M[i]) = c
BaseBad(k) ==
  LET q == Params[k] r == Force(ReferenceBase(k)) IN
  {f \in BaseFields : q[f] # r[f]} \cup (IF q.canon THEN {} ELSE {"canonical form"})
OptBad(k) ==
  LET q == Params[k]
      ok == q.t = k + 1 /\ Shaped(q, q.mds, q.t, q.t) /\ Shaped(q, q.arc, q.rF + q.rP, q.t) /\ ~Singular(P, q.mds)
      o == Force(Optimized(P, q.mds, q.arc, q.rF, q.rP))
  IN IF ~ok THEN {"base shape"}
     ELSE {f \in OptFields : q[f] # o[f]} \cup (IF q.count = Count(q.t) THEN {} ELSE {"count"})
          \cup (IF q.canon THEN {} ELSE {"canonical form"})
MdsBad(k) ==
  LET q == Params[k] IN
  (IF IsMDS(P, q.mds) THEN {} ELSE {"singular submatrix"})
  \cup (IF q.alpha = "exp" /\ IGcd(q.e, ISub(P, "1")) = "1" THEN {} ELSE {"exponent not coprime to p-1"})
Items == CASE Mode = "C07" -> {"base"} [] Mode = "C08" -> {"opt"} [] Mode = "C09" -> {"mds"}
Init == n \in Rates /\ item \in Items /\ bad = {"pending"}
Next == /\ bad = {"pending"} /\ UNCHANGED <<n, item>>
        /\ bad' = (CASE item = "base" -> BaseBad(n) [] item = "opt" -> OptBad(n) [] item = "mds" -> MdsBad(n))
        /\ IF bad' # {} THEN JsonSerialize(IOEnv.OUT \o "/bad_" \o ToString(n) \o ".json",
                              [rate |-> n, fields |-> SetToSeq(bad')]) ELSE TRUE
Derived == bad \in {{}, {"pending"}}
=============================================================================
