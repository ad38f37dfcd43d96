------------------------------ MODULE ParamGen ------------------------------
(***************************************************************************)
(* Choosing an instance: the S-box exponent and the round numbers.  All    *)
(* logarithms of the paper's bounds are removed: each bound is stated as   *)
(* a comparison of integer powers, so nothing is rounded.                  *)
(***************************************************************************)
EXTENDS FieldOps, FiniteSets, SequencesExt, Eval, TLC

\* ======================= the exponent ======================================
\* the numbers with shortest addition chains of length 2, 3, .. 7, the chains
\* of one length in descending order (Knuth); only odd ones can be exponents
RECURSIVE Chains(_)
\* chains as strictly ascending sequences starting <<1, 2>>
Chains(d) ==
  IF d = 1 THEN {<<1, 2>>}
  ELSE UNION {{Append(c, x) : x \in {y \in {c[i] + c[j] : i, j \in 1..Len(c)} : y > c[Len(c)]}} : c \in Chains(d - 1)}
\* (evaluated by ParamGenMC to justify the table below, not at run time)
ReachedBy(d) == {c[Len(c)] : c \in Chains(d)}

Candidates == <<3, 5, 9, 7, 17, 15, 13, 11, 33, 27, 25, 23, 21, 19,
                65, 51, 49, 45, 43, 41, 39, 37, 35, 31, 29>>
CoprimeTo(p, e) == IGcd(HexOf(e), ISub(p, "1")) = "1"
ChooseAlpha(p, allowInverse) ==
  LET good == SelectSeq(Candidates, LAMBDA e : CoprimeTo(p, e)) IN
  IF good # <<>> THEN HexOf(good[1]) ELSE IF allowInverse THEN "inv" ELSE "refused"

\* its encodings
AlphaLE(a) == IF a = "inv" THEN <<255, 255, 255, 255>> ELSE ToLE(a, 4)
AlphaNumber(a) == IF a = "inv" THEN "-1" ELSE a

\* ======================= the round numbers ================================
Leq(a, b) == ICmp(a, b) <= 0
Two(k) == IPow("2", k)
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
MinBy(a, b) == IF Leq(a, b) THEN a ELSE b
CeilDiv(a, b) == (a + b - 1) \div b
RECURSIVE LogUp(_, _, _, _)
\* largest n with b^n <= x, counting up from b^n = y <= x
LogUp(b, x, n, y) == LET z == IMul(y, b) IN IF Leq(z, x) THEN LogUp(b, x, n + 1, z) ELSE n
FloorLog(b, x) == LogUp(b, x, 0, "1")             \* floor(log_b x), x >= 1
CeilLog(b, x) == LET n == FloorLog(b, x) IN IF IPow(b, n) = x THEN n ELSE n + 1

\* --- statistical attacks (Section 5.5.1): full rounds ----------------------
\*   M <= (floor(log2 p) - C) (t + 1),  C = log2(alpha - 1), or 2 for inverse
MinFull(M, t, p, a) ==
  LET lp == IBits(p) - 1
      ok == IF a = "inv" THEN M <= (lp - 2) * (t + 1)
            ELSE Leq(IMul(IPow(ISub(a, "1"), t + 1), Two(M)), Two(lp * (t + 1)))
  IN IF ok THEN 6 ELSE 10

\* --- interpolation (5.5.2) and Groebner bases (C.2.2): the total must exceed
\*   exponent:  ceil(ceil(log_a(2) min(M, log2 p)) + log_a t)
\*              floor(log_a(2) min(M/3, log2(p)/2))
\*              floor(t - 1 + min(log_a(2) M/(t+1), log_a(2) log2(p)/2))
\*   inverse:   ceil(log2 t) + ceil(min(M, log2 p)/2)   (twice)
\*              t - 1 + ceil(log2 t) + min(ceil(M/(t+1)), ceil(log2(p)/2))
ExpBound(M, t, p, a) ==
  LET m == Two(M) \* 2^M
      interp == CeilLog(a, MinBy(m, p)) + CeilLog(a, HexOf(t))
      half == FloorLog(IMul(a, a), p)             \* a^(2n) <= p
      grob1 == Min2(FloorLog(IPow(a, 3), m), half)
      grob2 == t - 1 + Min2(FloorLog(IPow(a, t + 1), m), half)
  IN Max2(interp, Max2(grob1, grob2))
InvBound(M, t, p) ==
  LET lt == CeilLog("2", HexOf(t))
      hp == CeilLog("4", p)
  IN Max2(lt + CeilLog("4", MinBy(Two(M), p)), t - 1 + lt + Min2(CeilDiv(M, t + 1), hp))
\* floor(rF log2 t)
Scaled(rF, t) == IBits(IPow(HexOf(t), rF)) - 1

\* --- the refined Groebner attack (2023/537 Section 4.3), omega = 2 ----------
RECURSIVE PrefixSafe(_, _, _, _, _)
\* some prefix C(upper, i+1), i < lower, has 2 * bits >= M
PrefixSafe(upper, lower, M, i, acc) ==
  IF i >= lower THEN FALSE
  ELSE LET x == IDiv(IMul(acc, HexOf(upper - i)), HexOf(i + 1))
       IN IF 2 * IBits(x) >= M THEN TRUE ELSE PrefixSafe(upper, lower, M, i + 1, x)
RefinedSafe(M, t, a, rF, rP) ==
  LET r == t \div 3
      lower == r * (rF \div 2) + rP + IntOf(a)
      upper == (rF - 1) * t + rP + lower + r
  IN PrefixSafe(upper, lower, M, 0, "1")

\* --- security of one choice, as the paper states it --------------------------
Secure(v, M, t, p, a, rF, rP) ==
  /\ rF >= MinFull(M, t, p, a)
  /\ IF a = "inv" THEN Scaled(rF, t) + rP > InvBound(M, t, p)
     ELSE rF + rP > ExpBound(M, t, p, a)
  /\ IF v = 2 THEN RefinedSafe(M, t, a, rF, rP) ELSE TRUE

\* --- the choice: least S-box cost with margin, then fewest full rounds -------
Margin(rF, rP) == <<rF + 2, CeilDiv(43 * rP, 40)>>
Cost(t, rF, rP) == t * (rF + 2) + CeilDiv(43 * rP, 40)
FullRange == 4..99
PartialRange == 1..399
Best(t, S) ==
  LET c == [x \in S |-> Cost(t, x[1], x[2])]
      least == CHOOSE k \in {c[x] : x \in S} : \A x \in S : k <= c[x]
      first == {x \in S : c[x] = least}
      x == CHOOSE x \in first : \A y \in first : x[1] <= y[1]
  IN Margin(x[1], x[2])
\* as defined: over every pair
RoundsDef(v, M, t, p, a) ==
  LET S == {x \in FullRange \X PartialRange : Secure(v, M, t, p, a, x[1], x[2])}
  IN IF S = {} THEN <<>> ELSE Best(t, S)
\* as evaluated: security is monotone in rP, so the least rP of every rF suffices
\* (ParamGenMC compares the two)
RECURSIVE Climb(_, _, _, _, _)
Climb(M, t, a, rF, rP) == IF rP > 399 THEN rP ELSE IF RefinedSafe(M, t, a, rF, rP) THEN rP ELSE Climb(M, t, a, rF, rP + 1)
RoundsFast(v, M, t, p, a) ==
  LET b == Force(IF a = "inv" THEN InvBound(M, t, p) ELSE ExpBound(M, t, p, a))
      f == Force(MinFull(M, t, p, a))
      base(rF) == Max2(1, b + 1 - (IF a = "inv" THEN Scaled(rF, t) ELSE rF))
      least(rF) == IF v = 2 THEN Climb(M, t, a, rF, base(rF)) ELSE base(rF)
      S == Force({x \in {<<rF, least(rF)>> : rF \in {k \in FullRange : k >= f}} : x[2] <= 399})
  IN IF S = {} THEN <<>> ELSE Best(t, S)

\* version 1 refuses levels above 256; version 2 has no inverse S-box
Refused(v, M, a) == (v = 1 /\ M > 256) \/ (v = 2 /\ a = "inv")
Rounds(v, M, t, p, a) == IF Refused(v, M, a) THEN <<>> ELSE RoundsFast(v, M, t, p, a)

\* a double holds log2 of a modulus only to some 40 bits: moduli this close to
\* the one given are not told apart
Nearby(p) == {p, ISub(p, IDiv(p, Two(36))), IAdd(p, IDiv(p, Two(36)))}
RoundsAllowed(v, M, t, p, a) == {Rounds(v, M, t, q, a) : q \in Nearby(p)}

\* ======================= round-number records ==============================
\* [full, partial], numerals; operations name the count they replace or raise
RnStep(z, o) ==
  LET new(old) == IF o[2] = "=" THEN o[3] ELSE IAdd(old, o[3])
  IN IF o[1] = "F" THEN [z EXCEPT !.full = new(@)] ELSE [z EXCEPT !.partial = new(@)]
RnSeen(z) == <<z.full, z.partial, IAdd(z.full, z.partial), z.full, z.partial>>
RnHistory(start, ops) ==
  FoldLeft(LAMBDA acc, o : LET z == RnStep(acc.z, o) IN [z |-> z, seen |-> Append(acc.seen, RnSeen(z))],
           [z |-> [full |-> start[1], partial |-> start[2]], seen |-> <<RnSeen([full |-> start[1], partial |-> start[2]])>>], ops).seen
=============================================================================
