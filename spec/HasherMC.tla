----------------------------- MODULE HasherMC -----------------------------
(* Exhaustive exploration of the object machine over a tiny field (mod 5,  *)
(* two and three words): all histories of a bounded length.                *)
EXTENDS Poseidon
CONSTANTS Ids, Depth
Q == "5"
E3 == "3"
Prm(n) == [t |-> n + 1, e |-> E3, rF |-> 2, rP |-> 1,
           mds |-> [i \in 1..(n + 1) |-> [j \in 1..(n + 1) |-> FAdd(Q, HexOf(i * j), IF i = j THEN "1" ELSE "3")]],
           arc |-> [r \in 1..3 |-> [j \in 1..(n + 1) |-> HexOf((r + 2 * j) % 5)]]]
MCRates == {1, 2}
Ins(n) == {[i \in 1..(n + 1) |-> "0"], [i \in 1..(n + 1) |-> IF i = 2 THEN "4" ELSE "1"]}
MCPerm(n, k, x) == Run(Q, E3, RefSchedule(Prm(n)), x)
H == INSTANCE Hasher WITH Perm <- MCPerm
Actions == {[op |-> "new", i |-> i, n |-> n] : i \in Ids, n \in MCRates}
           \cup {[op |-> o, i |-> i] : o \in {"drop", "read"}, i \in Ids}
           \cup UNION {{[op |-> "call", i |-> i, n |-> n, k |-> k, in |-> x] : i \in Ids, k \in {"opt", "unopt"}, x \in Ins(n)} : n \in MCRates}
           \cup UNION {{[op |-> "hash", n |-> n, in |-> x] : x \in Ins(n)} : n \in MCRates}
VARIABLES tab, hist
vars == <<tab, hist>>
Init == tab = H!Empty /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E a \in Actions : /\ H!Enabled(tab, a) /\ tab' = H!Step(tab, a)
                              /\ hist' = Append(hist, a @@ [res |-> H!Result(tab, a)])
\* equal calls report equal results wherever they stand in a history
Functional == \A j, k \in 1..Len(hist) :
  hist[j].op \in {"call", "hash"} /\ hist[k].op \in {"call", "hash"} /\ hist[j].n = hist[k].n /\ hist[j].in = hist[k].in
    => hist[j].res = hist[k].res
\* a live instance shows the final state of its last call, zeros before any
LastCall(i) == {k \in 1..Len(hist) : hist[k].op \in {"new", "call"} /\ hist[k].i = i}
Shows == \A i \in DOMAIN tab :
  LET k == CHOOSE k \in LastCall(i) : \A j \in LastCall(i) : j <= k
  IN tab[i].st = IF hist[k].op = "new" THEN H!Zeros(tab[i].n) ELSE MCPerm(tab[i].n, "opt", hist[k].in)
=============================================================================
