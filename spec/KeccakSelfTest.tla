--------------------------- MODULE KeccakSelfTest ---------------------------
(* The Java evaluation of KeccakF against its definition, on chained states *)
(* and on states with single bits, and against the published value for the  *)
(* zero state.                                                              *)
EXTENDS Keccak
VARIABLES n, s
Zero == [i \in 1..200 |-> 0]
Start == {Zero, [i \in 1..200 |-> 255], [i \in 1..200 |-> (7 * i) % 256]}
         \cup {[Zero EXCEPT ![k] = 2 ^ (k % 8)] : k \in {1, 2, 9, 17, 40, 64, 77, 121, 166, 168, 200}}
Init == n = 0 /\ s \in Start
Next == n < 3 /\ n' = n + 1 /\ s' = KeccakF(s)
Agrees == KeccakF(s) = KeccakFDef(s)
\* first lane of Keccak-f[1600](0) is f1258f7940e1dde7
Published == SubSeq(KeccakF(Zero), 1, 8) = <<231, 221, 225, 64, 121, 143, 37, 241>>
=============================================================================
