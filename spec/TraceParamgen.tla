---------------------------- MODULE TraceParamgen ----------------------------
(***************************************************************************)
(* Recorded runs of the parameter generator.  The state holds the Merlin   *)
(* transcripts, by name, as the STROBE machine of Merlin.tla has them; a   *)
(* squeeze must yield exactly the bytes that machine yields.               *)
(***************************************************************************)
EXTENDS Derive, ParamGen, Json, IOUtils
VARIABLES file, l, ts, bad
NFiles == atoi(IOEnv.NFILES)
Traces == Force([f \in 1..NFiles |-> ndJsonDeserialize(IOEnv.OUT \o "/g_" \o ToString(f) \o ".ndjson")])

FieldBytes(p) == 8 * ((IBits(p) + 63) \div 64)
Separated(S, e) ==
  LET b == AppendMessage(S, Ascii("dom-sep"), Ascii("poseidon-paramgen"))
      c == AppendMessage(b, Ascii("t"), ToLE(e.t, 8))
      d == AppendMessage(c, Ascii("M"), ToLE(e.M, 8))
      f == AppendMessage(d, Ascii("p"), ToLE(e.p, FieldBytes(e.p)))
      g == AppendMessage(f, Ascii("r_F"), ToLE(e.rF, 1))
      h == AppendMessage(g, Ascii("r_P"), ToLE(e.rP, 1))
  IN AppendMessage(h, Ascii("alpha"), AlphaLE(e.alpha))
Squeezed(S, e) == FoldLeft(LAMBDA Z, i : Force(SqueezeConstant(Z, e.p)), [t |-> S, out |-> <<>>], [i \in 1..e.n |-> i])

\* an admissible squeeze keeps a margin of 128 bits
ASSUME \A k \in {3, 8, 9, 16, 64, 65, 253, 254, 255, 256, 257, 381, 753} : 8 * ChallengeLen(Two(k - 1)) >= k + 128

\* floor(log2 p^1024) by ten squarings, keeping 96 leading bits: exact to one unit
Keep(z) == LET k == IBits(z.x) - 96 IN IF k > 0 THEN [x |-> IDiv(z.x, Two(k)), s |-> z.s + k] ELSE z
Lg1024(p) ==
  LET z == FoldLeft(LAMBDA y, i : Force(Keep([x |-> IMul(y.x, y.x), s |-> 2 * y.s])), Keep([x |-> p, s |-> 0]), [i \in 1..10 |-> i])
  IN IBits(z.x) - 1 + z.s
LogNear(e) == LET q == Lg1024(e.p) IN e.lg \in {q - 1, q, q + 1}
\* round-constant matrices, entries by rows
Drawn(e) ==
  LET S == Separated(TranscriptNew(Ascii("round-constants")), [e EXCEPT !.rF = HexOf(e.rF), !.rP = HexOf(e.rP), !.t = HexOf(e.t)])
      n == IF e.v = 1 THEN (e.rF + e.rP) * e.t ELSE e.rF * e.t + e.rP
  IN [rows |-> IF e.v = 1 THEN e.rF + e.rP ELSE n, cols |-> IF e.v = 1 THEN e.t ELSE 1, out |-> SqueezeConstants(S, e.p, n)]
ByRows(s, n, m) == [i \in 1..n |-> SubSeq(s, (i - 1) * m + 1, i * m)]
Pushed(e) == [rows |-> e.rF + e.rP, cols |-> e.t,
              out |-> FlattenSeq(OptConstants(e.p, ByRows(e.arc, e.rF + e.rP, e.t), ByRows(e.mds, e.t, e.t), e.rF, e.rP))]
Good(e) ==
  CASE e.fail # "" -> FALSE
    [] e.op = "alpha" -> e.out = ChooseAlpha(e.p, e.inv)
    [] e.op = "enc" -> e.le = AlphaLE(e.alpha) /\ e.whole /\ e.num = (IF e.alpha = "inv" THEN "-1" ELSE e.alpha) /\ e.eq
    [] e.op = "rounds" -> e.same /\ LogNear(e)
                          /\ IF e.out = Rounds(e.v, e.M, e.t, e.p, e.alpha) THEN TRUE ELSE e.out \in RoundsAllowed(e.v, e.M, e.t, e.p, e.alpha)
    [] e.op = "rn" -> e.seen = RnHistory(e.start, e.ops)
    [] e.op = "sq" -> e.out = Squeezed(ts[e.i], e).out
    [] e.op = "consts" -> [rows |-> e.rows, cols |-> e.cols, out |-> e.out] = Drawn(e)
    [] e.op = "optc" -> [rows |-> e.rows, cols |-> e.cols, out |-> e.out] = Pushed(e)
    [] OTHER -> TRUE
Expected(e) ==
  CASE e.op = "alpha" -> ChooseAlpha(e.p, e.inv)
    [] e.op = "enc" -> <<AlphaLE(e.alpha), e.alpha>>
    [] e.op = "rounds" -> <<RoundsAllowed(e.v, e.M, e.t, e.p, e.alpha), Lg1024(e.p)>>
    [] e.op = "rn" -> RnHistory(e.start, e.ops)
    [] e.op = "sq" -> Squeezed(ts[e.i], e).out
    [] e.op = "consts" -> Drawn(e)
    [] e.op = "optc" -> Pushed(e)
    [] OTHER -> "no failure"
Set(i, S) == (i :> Force(S)) @@ ts
Then(e) ==
  CASE e.op = "new" -> Set(e.i, TranscriptNew(Ascii(e.label)))
    [] e.op = "dup" -> Set(e.j, ts[e.i])
    [] e.op = "sep" -> Set(e.i, Separated(ts[e.i], e))
    [] e.op = "app" -> Set(e.i, AppendMessage(ts[e.i], Ascii(e.label), e.data))
    [] e.op = "sq" -> Set(e.i, Squeezed(ts[e.i], e).t)
    [] OTHER -> ts
Init == file \in 1..NFiles /\ l = 1 /\ ts = <<>> /\ bad = FALSE
Next == /\ ~bad /\ l <= Len(Traces[file]) /\ file' = file
        /\ LET e == Traces[file][l] IN
           IF Good(e) THEN l' = l + 1 /\ bad' = FALSE /\ ts' = Then(e)
           ELSE /\ bad' = TRUE /\ UNCHANGED <<l, ts>>
                /\ JsonSerialize(IOEnv.OUT \o "/bad_" \o ToString(file) \o ".json", [file |-> file, position |-> l, event |-> e, expected |-> ToString(Expected(e))])
Accepted == ~bad
=============================================================================
