----------------------------- MODULE Poseidon -----------------------------
(***************************************************************************)
(* The Poseidon permutation (Grassi et al., eprint 2019/458) over a prime  *)
(* field, as the sequence of layers it applies to a state of t words.      *)
(*                                                                         *)
(* A parameter set is a record with the public fields of the library's     *)
(* PoseidonParameters:                                                     *)
(*   t, rF, rP   integers                                                  *)
(*   e           exponent of the S-box, a numeral.  The inverse S-box      *)
(*               x |-> 1/x, 0 |-> 0 is the exponent p-2.                   *)
(*   mds         t x t matrix          arc   (rF+rP) x t constants         *)
(*   oarc        optimized constants   Mi    dense matrix before the       *)
(*   m00, v, what                            partial rounds                *)
(*               sparse matrices, one per partial round                    *)
(* Words are numbered from 1; the hash is word 2 (the library's word 1).   *)
(***************************************************************************)
EXTENDS Linear

\* --- layers ---------------------------------------------------------------
Arc(c)   == [k |-> "arc", c |-> c]
Full     == [k |-> "full"]
Part     == [k |-> "part"]
Mat(M)   == [k |-> "mat", M |-> M]
Add0(c)  == [k |-> "add0", c |-> c]
Sparse(a, v, w) == [k |-> "sparse", a |-> a, v |-> v, w |-> w]

Apply(m, e, L, s) ==
  CASE L.k = "arc"  -> FVAdd(m, s, L.c)
    [] L.k = "full" -> FVPow(m, s, e)
    [] L.k = "part" -> [s EXCEPT ![1] = FPow(m, s[1], e)]
    [] L.k = "mat"  -> FMatVec(m, L.M, s)
    [] L.k = "add0" -> [s EXCEPT ![1] = FAdd(m, s[1], L.c)]
    [] L.k = "sparse" ->
         [i \in 1..Len(s) |->
            IF i = 1 THEN FDot(m, <<L.a>> \o L.w, s)
            ELSE FAdd(m, s[i], FMul(m, L.v[i - 1], s[1]))]

\* the dense matrix of a sparse layer
SparseMatrix(a, v, w) ==
  [i \in 1..(Len(v) + 1) |-> [j \in 1..(Len(v) + 1) |->
     IF i = 1 THEN IF j = 1 THEN a ELSE w[j - 1]
     ELSE IF j = 1 THEN v[i - 1] ELSE IF i = j THEN "1" ELSE "0"]]

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))

\* --- schedules -------------------------------------------------------------
\* the published definition
RefSchedule(q) ==
  LET h == q.rF \div 2 IN
  Concat([r \in 1..(2 * h + q.rP) |->
     <<Arc(q.arc[r]), IF r <= h \/ r > h + q.rP THEN Full ELSE Part, Mat(q.mds)>>])

\* the equivalent schedule of Appendix B: constants of the partial rounds
\* moved forward, dense matrices replaced by sparse ones
OptSchedule(q) ==
  LET h == q.rF \div 2 IN
  Concat([r \in 1..h |-> <<Arc(q.oarc[r]), Full, Mat(q.mds)>>])
  \o <<Arc(q.oarc[h + 1]), Mat(q.Mi)>>
  \o Concat([r \in 1..(q.rP - 1) |->
        <<Part, Add0(q.oarc[h + 1 + r][1]), Sparse(q.m00, q.v[q.rP - r + 1], q.what[q.rP - r + 1])>>])
  \o <<Part, Sparse(q.m00, q.v[1], q.what[1])>>
  \o Concat([r \in 1..h |-> <<Arc(q.oarc[h + q.rP + r]), Full, Mat(q.mds)>>])

\* layers a..b of a schedule, one after the other.  Poseidon.java evaluates
\* RunPart without building the intermediate states; PoseidonSelfTest.tla
\* compares it with the definition, and the machine Permutation.tla takes the
\* layers one step at a time.
RunPartDef(m, e, sched, s, a, b) ==
  FoldLeft(LAMBDA x, L : Force(Apply(m, e, L, x)), s, SubSeq(sched, a, b))
RunPart(m, e, sched, s, a, b) == RunPartDef(m, e, sched, s, a, b)
Run(m, e, sched, s) == RunPart(m, e, sched, s, 1, Len(sched))

\* --- backwards --------------------------------------------------------------
\* e-th roots exist uniquely when e is coprime to m - 1
RootExp(m, e) == FInv0(ISub(m, "1"), e)
\* the layer that undoes L (d is the inverse exponent)
UndoLayer(m, L) ==
  CASE L.k = "arc"  -> Arc([i \in 1..Len(L.c) |-> FNeg(m, L.c[i])])
    [] L.k = "full" -> L
    [] L.k = "part" -> L
    [] L.k = "mat"  -> Mat(InvMat(m, L.M))
    [] L.k = "add0" -> Add0(FNeg(m, L.c))
    [] L.k = "sparse" -> Mat(InvMat(m, Force(SparseMatrix(L.a, L.v, L.w))))
UndoSchedule(m, sched) ==
  [k \in 1..Len(sched) |-> Force(UndoLayer(m, sched[Len(sched) + 1 - k]))]
\* run the undo schedule of the first k layers on s
Unrun(m, e, undo, total, s, k) == RunPart(m, RootExp(m, e), undo, s, total - k + 1, total)
=============================================================================
