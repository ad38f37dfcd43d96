----------------------------- MODULE FieldOps -----------------------------
(***************************************************************************)
(* Arithmetic on natural numbers and prime fields of any size.             *)
(*                                                                         *)
(* TLC's integers have 32 bits; the field of decaf377 has 253.  A number   *)
(* is therefore written as its canonical lower-case hexadecimal numeral    *)
(* (no leading zero, "0" for zero), and the modulus is an argument of      *)
(* every field operator, so that one text serves the real field and the    *)
(* tiny fields of the exhaustive configurations.                           *)
(*                                                                         *)
(* Each operator below has its definition in TLA+.  FieldOps.java replaces *)
(* the evaluation of those definitions by java.math.BigInteger (TLC module *)
(* override); FieldSelfTest.tla checks the replacement against the         *)
(* definitions, exhaustively over small numbers.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences

HexDigits == "0123456789abcdef"

\* --- pure definitions: the meaning of a numeral (never overridden) ---------
DigVal(c) == (CHOOSE k \in 1..16 : SubSeq(HexDigits, k, k) = c) - 1

RECURSIVE Val(_)
Val(h) == IF Len(h) = 1 THEN DigVal(h)
          ELSE 16 * Val(SubSeq(h, 1, Len(h) - 1)) + DigVal(SubSeq(h, Len(h), Len(h)))

RECURSIVE Num(_)
Num(n) == IF n < 16 THEN SubSeq(HexDigits, n + 1, n + 1)
          ELSE Num(n \div 16) \o SubSeq(HexDigits, (n % 16) + 1, (n % 16) + 1)

RECURSIVE NatPow(_, _)
NatPow(a, e) == IF e = 0 THEN 1 ELSE a * NatPow(a, e - 1)

RECURSIVE SumNat(_)
SumNat(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumNat(Tail(s))

RECURSIVE GcdNat(_, _)
GcdNat(a, b) == IF b = 0 THEN a ELSE GcdNat(b, a % b)

RECURSIVE PowModNat(_, _, _)
PowModNat(a, e, m) == IF e = 0 THEN 1 % m ELSE (a * PowModNat(a, e - 1, m)) % m

\* --- conversions ---------------------------------------------------------
HexOf(n) == Num(n)                    \* small integer to numeral
IntOf(h) == Val(h)                    \* numeral (below 2^31) to integer

\* --- field operations modulo m -------------------------------------------
FRed(m, a)      == Num(Val(a) % Val(m))
FAdd(m, a, b)   == Num((Val(a) + Val(b)) % Val(m))
FSub(m, a, b)   == Num((Val(a) + (Val(m) - (Val(b) % Val(m)))) % Val(m))
FNeg(m, a)      == Num((Val(m) - (Val(a) % Val(m))) % Val(m))
FMul(m, a, b)   == Num((Val(a) * Val(b)) % Val(m))
FPow(m, a, e)   == Num(PowModNat(Val(a), Val(e), Val(m)))
\* multiplicative inverse, extended by 0 |-> 0 (m prime)
FInv0(m, a)     == IF Val(a) % Val(m) = 0 THEN "0"
                   ELSE Num(CHOOSE b \in 1..(Val(m) - 1) : (Val(a) * b) % Val(m) = 1)
FDot(m, s, t)   == Num(SumNat([i \in 1..Len(s) |-> (Val(s[i]) * Val(t[i])) % Val(m)]) % Val(m))

\* vectors (sequences of elements)
FVAdd(m, s, t)  == [i \in 1..Len(s) |-> FAdd(m, s[i], t[i])]
FVScale(m, c, s)== [i \in 1..Len(s) |-> FMul(m, c, s[i])]
FMatVec(m, M, s)== [i \in 1..Len(M) |-> FDot(m, M[i], s)]
FVPow(m, s, e)  == [i \in 1..Len(s) |-> FPow(m, s[i], e)]
\* row vector times matrix: sum_i c[i] * V[i], all V[i] of the same length
FLin(m, c, V)   == [j \in 1..Len(V[1]) |-> FDot(m, c, [i \in 1..Len(V) |-> V[i][j]])]

\* --- natural numbers -----------------------------------------------------
IAdd(a, b) == Num(Val(a) + Val(b))
ISub(a, b) == Num(Val(a) - Val(b))    \* a >= b
IMul(a, b) == Num(Val(a) * Val(b))
IDiv(a, b) == Num(Val(a) \div Val(b))
IMod(a, b) == Num(Val(a) % Val(b))
IPow(a, k) == Num(NatPow(Val(a), k))  \* k a small integer
IGcd(a, b) == Num(GcdNat(Val(a), Val(b)))
ICmp(a, b) == IF Val(a) < Val(b) THEN -1 ELSE IF Val(a) = Val(b) THEN 0 ELSE 1
\* number of binary digits (0 for zero)
IBits(a)   == IF Val(a) = 0 THEN 0
              ELSE CHOOSE k \in 1..31 : NatPow(2, k - 1) <= Val(a) /\ (k = 31 \/ Val(a) < NatPow(2, k))

\* --- little-endian byte strings -------------------------------------------
ToLE(a, n)  == [i \in 1..n |-> (Val(a) \div NatPow(256, i - 1)) % 256]
FromLE(s)   == Num(SumNat([i \in 1..Len(s) |-> s[i] * NatPow(256, i - 1)]))
=============================================================================
