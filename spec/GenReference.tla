--------------------------- MODULE GenReference ---------------------------
(* Derives every rate's reference parameters from the specification and     *)
(* writes them to $OUT/rate_<n>.json (one initial state per rate).          *)
EXTENDS Decaf377, Json, IOUtils
VARIABLES n, done
Init == n \in Rates /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ n' = n
        /\ LET b == Force(ReferenceBase(n))
               o == Force(Optimized(P, b.mds, b.arc, RF, RP))
           IN JsonSerialize(IOEnv.OUT \o "/rate_" \o ToString(n) \o ".json", b @@ o)
=============================================================================
