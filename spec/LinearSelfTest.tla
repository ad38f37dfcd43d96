--------------------------- MODULE LinearSelfTest ---------------------------
(***************************************************************************)
(* The definitions of Linear.tla against each other: Leibniz sum, Laplace  *)
(* table and elimination agree; inverses are two-sided; singularity is a   *)
(* zero determinant; A times its adjugate is the determinant.  Exhaustive  *)
(* over small fields and dimensions, pseudo-random beyond.                 *)
(***************************************************************************)
EXTENDS Linear
VARIABLES job, done
Mats(q, n) == [1..n -> [1..n -> {HexOf(k) : k \in 0..(q - 1)}]]
Mix(a, q) == a % q
PAt(q, i, j, k) == FPow(HexOf(q), HexOf(2 + Mix((i * 7) + (j * 3) + (k * 11), q - 2)), HexOf(1 + Mix((i * j * k) + i + (3 * k), q + 5)))
Pseudo(q, n, k) == [i \in 1..n |-> [j \in 1..n |-> PAt(q, i, j, k)]]
Agree(m, A) ==
  LET n == Rows(A)
      d == Det(m, A)
      inv == InvMat(m, A)
      adj == Transpose(Hadamard(m, Minors(m, A), Signs(m, n)))
  IN /\ d = DetLeibniz(m, A) /\ d = DetLaplace(m, A)
     /\ Singular(m, A) <=> d = "0"
     /\ d # "0" => MatMul(m, A, inv) = Identity(n) /\ MatMul(m, inv, A) = Identity(n)
     /\ n > 1 => MatMul(m, A, adj) = MatScale(m, d, Identity(n))
Jobs == {<<"all", 2, 1>>, <<"all", 2, 2>>, <<"all", 2, 3>>, <<"all", 3, 2>>, <<"all", 5, 2>>, <<"all", 3, 3>>}
        \cup {<<"rnd", 7, n>> : n \in 3..6} \cup {<<"rnd", 13, n>> : n \in 3..6}
Holds(j) == IF j[1] = "all" THEN \A A \in Mats(j[2], j[3]) : Agree(HexOf(j[2]), A)
            ELSE \A k \in 1..(IF j[3] > 5 THEN 4 ELSE 40) : Agree(HexOf(j[2]), Force(Pseudo(j[2], j[3], k)))
Init == job \in Jobs /\ done = FALSE
Next == ~done /\ done' = TRUE /\ job' = job
AllAgree == done => Holds(job)
=============================================================================
