---------------------------- MODULE Interleave ----------------------------
(***************************************************************************)
(* Two threads inside a call each.  A call is G blocks of field            *)
(* operations on data of its own; a step lets one thread run one block.    *)
(* Explored exhaustively: whatever the order, each call ends with the      *)
(* permutation of its input, and the orders seen are exactly Merges(G, G), *)
(* the list GenSched replays into the real code.                           *)
(***************************************************************************)
EXTENDS Poseidon
CONSTANT G

\* every order of a blocks of thread 0 and b blocks of thread 1
RECURSIVE Merges(_, _)
Merges(a, b) ==
  IF a = 0 THEN {[i \in 1..b |-> 1]}
  ELSE IF b = 0 THEN {[i \in 1..a |-> 0]}
  ELSE {<<0>> \o m : m \in Merges(a - 1, b)} \cup {<<1>> \o m : m \in Merges(a, b - 1)}

Q == "5"
E3 == "3"
Prm == [t |-> 2, e |-> E3, rF |-> 2, rP |-> 2,
        mds |-> <<<<"2", "3">>, <<"1", "4">>>>,
        arc |-> <<<<"1", "4">>, <<"2", "0">>, <<"3", "3">>, <<"0", "1">>>>]
Layers == RefSchedule(Prm)
\* the layers of block g of a call
Block(g) == SubSeq(Layers, ((g - 1) * Len(Layers)) \div G + 1, (g * Len(Layers)) \div G)
Inputs2 == {<<"0", "0">>, <<"1", "4">>, <<"3", "2">>}

VARIABLES in, st, at, order
Init == /\ in \in [{0, 1} -> Inputs2] /\ st = in
        /\ at = [i \in {0, 1} |-> 0] /\ order = <<>>
Next == \E i \in {0, 1} :
          /\ at[i] < G
          /\ st' = [st EXCEPT ![i] = Run(Q, E3, Block(at[i] + 1), @)]
          /\ at' = [at EXCEPT ![i] = @ + 1]
          /\ order' = Append(order, i)
          /\ in' = in
Right == \A i \in {0, 1} : at[i] = G => st[i] = Run(Q, E3, Layers, in[i])
Listed == at[0] = G /\ at[1] = G => order \in Merges(G, G)
===========================================================================
