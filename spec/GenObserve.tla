----------------------------- MODULE GenObserve -----------------------------
(* One round of the search: from the nodes of the last round and what the  *)
(* watched program answered to its probes, the inputs to check and the     *)
(* nodes and probes of the next round.  One initial state per group        *)
(* (rate and call).                                                         *)
EXTENDS Observe
VARIABLES group, done
Round == atoi(IOEnv.ROUND)
NGroups == atoi(IOEnv.NGROUPS)
Groups == Force(JsonDeserialize(IOEnv.OUT \o "/groups.json"))
MaxGrad == IF IOEnv.VERIF_TIER = "thorough" THEN 400 ELSE 48
File(what, r, g) == IOEnv.OUT \o "/obs_" \o what \o "_" \o ToString(r) \o "_" \o ToString(g)

Nodes(g) == JsonDeserialize(File("nodes", Round - 1, g) \o ".json")
Answers(g) == ndJsonDeserialize(File("probes", Round - 1, g) \o ".ndjson")
\* answers of the k-th node: probes are in order
Count(N) == Len(Points(N))
Starts(NN) == FoldLeft(LAMBDA acc, k : Append(acc, acc[Len(acc)] + Count(NN[k])), <<1>>, [k \in 1..Len(NN) |-> k])

\* spread at most MaxGrad of a sequence
Spread(q) == IF Len(q) <= MaxGrad THEN q ELSE [k \in 1..MaxGrad |-> q[1 + ((k - 1) * Len(q)) \div MaxGrad]]
\* per look and path keep the first and the last coordinates that serve
OneOf(q) == SelectSeq([k \in 1..Len(q) |-> k], LAMBDA k :
              \/ \A h \in 1..(k - 1) : q[h].path # q[k].path
              \/ \A h \in (k + 1)..Len(q) : q[h].path # q[k].path)
Pick(q) == LET i == Force(OneOf(q)) IN Spread([k \in 1..Len(i) |-> q[i[k]]])

\* for each look and value at most four inputs: the first and last two coordinates
Few(I) == LET key(x) == <<I[x].path, I[x].v>>
              c == FoldLeft(LAMBDA a, x : IF key(x) \in DOMAIN a THEN [a EXCEPT ![key(x)] = Append(@, x)] ELSE a @@ (key(x) :> <<x>>),
                            [y \in {} |-> <<>>], [x \in 1..Len(I) |-> x])
              cut(q) == IF Len(q) <= 4 THEN q ELSE <<q[1], q[2], q[Len(q) - 1], q[Len(q)]>>
              keys == SetToSeq(DOMAIN c)
          IN FlattenSeq([k \in 1..Len(keys) |-> cut(c[keys[k]])])

\* what one answered node leads to
FromLine(N, L) ==
  LET us == Force(Usable(N, L)) IN
  [ins |-> FlattenSeq([u \in 1..Len(us) |-> LET T == Targets(L, us[u]) IN
             [k \in 1..Len(T) |-> [path |-> Append(N.path, us[u]), v |-> T[k], s |-> Along(N.s, Solve(L, us[u], T[k]), N.r)]]]),
   grads |-> IF N.D = <<>> \/ Len(N.D) < 2 THEN <<>>
             ELSE [u \in 1..Len(us) |-> GradNode(N, Along(N.s, Solve(L, us[u], "0"), N.r), us[u], "0")]]
\* looks of a line, and how many of them one of its points turns
Next1(g, NN, A, S, U) ==
  LET st == Force(Starts(NN))
      ans(k) == [x \in 1..Count(NN[k]) |-> A[st[k] + x - 1].looks]
      line(k) == Force(FromLine(NN[k], ans(k)))
      one(k) ==
        CASE NN[k].kind = "root" ->
               [ins |-> <<>>, grads |-> <<>>,
                lines |-> IF A[st[k]].total = 0 /\ A[st[k]].fail = "" THEN <<>>
                          ELSE LET t == Groups[g].t
                                   \* along a random direction, and along each word alone
                                   ln(j, D) == LineNode(j, RndState(t, 12200, j), D, <<>>, Round)
                               IN Concat([j \in 1..(Len(SboxLayers(S)) + 1) |->
                                    <<ln(j - 1, Unit(t))>> \o [q \in 1..t |-> ln(j - 1, <<Unit(t)[q]>>)]])]
          [] NN[k].kind = "line" ->
               LET f == line(k) IN
               [ins |-> [x \in 1..Len(f.ins) |-> [f.ins[x] EXCEPT !.s = [j |-> NN[k].j, s |-> f.ins[x].s]]], grads |-> f.grads, lines |-> <<>>]
          [] NN[k].kind = "grad" ->
               LET D == Force(Kept(NN[k], ans(k))) IN
               [ins |-> <<>>, grads |-> <<>>,
                lines |-> IF D = <<>> THEN <<>> ELSE <<LineNode(NN[k].j, NN[k].s, D, NN[k].path, Round)>>]
      RR == Force([k \in 1..Len(NN) |-> Force(one(k))])
      I == Force(FlattenSeq([k \in 1..Len(RR) |-> RR[k].ins]))
      K == Force(Few(I))
  IN [ins |-> [x \in 1..Len(K) |-> Force(Back(S, U, [j |-> I[K[x]].s.j], I[K[x]].s.s))],
      looks |-> Cardinality({I[x].path : x \in 1..Len(I)}),
      nodes |-> Pick(Force(FlattenSeq([k \in 1..Len(RR) |-> RR[k].grads]))) \o FlattenSeq([k \in 1..Len(RR) |-> RR[k].lines])]

Result(g, S, U) ==
  IF Round = 0 THEN [ins |-> <<>>, looks |-> 0, nodes |-> <<Root(Groups[g], g)>>]
  ELSE Next1(g, Force(Nodes(g)), Force(Answers(g)), S, U)
Write(g) ==
  LET S == IF Groups[g].n = 0 THEN <<>> ELSE Force(Sched(Groups[g].n, "ref"))
      U == IF S = <<>> THEN <<>> ELSE Force(UndoSchedule(P, S))
      RR == Force(Result(g, S, U))
  IN /\ JsonSerialize(File("nodes", Round, g) \o ".json", RR.nodes)
     /\ JsonSerialize(File("ask", Round, g) \o ".json", FlattenSeq([k \in 1..Len(RR.nodes) |-> Force(Probes(S, U, RR.nodes[k]))]))
     /\ JsonSerialize(File("ins", Round, g) \o ".json", [looks |-> RR.looks, ins |-> RR.ins])
Init == group \in 1..NGroups /\ done = FALSE
Next == ~done /\ done' = TRUE /\ group' = group /\ Write(group)
=============================================================================
