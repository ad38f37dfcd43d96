--------------------------- MODULE FieldSelfTest ---------------------------
(* The Java evaluation of FieldOps agrees with the TLA+ definitions: every   *)
(* operator, exhaustively over small numbers and fields.  One state per      *)
(* modulus; the invariant is evaluated there.                                *)
EXTENDS FieldOps, TLC
VARIABLE m
Primes == {2, 3, 5, 7, 11, 13, 17, 23}
Init == m \in Primes
Next == UNCHANGED m
Z == 0..(m - 1)
\* the definitions again, over integers
FieldOK ==
  \A a, b \in Z :
    LET A == Num(a) B == Num(b) Mm == Num(m) IN
    /\ FAdd(Mm, A, B) = Num((a + b) % m)
    /\ FSub(Mm, A, B) = Num((a + m - b) % m)
    /\ FNeg(Mm, A) = Num((m - a) % m)
    /\ FMul(Mm, A, B) = Num((a * b) % m)
    /\ FPow(Mm, A, B) = Num(PowModNat(a, b, m))
    /\ LET i == Val(FInv0(Mm, A)) IN IF a = 0 THEN i = 0 ELSE i \in Z /\ (i * a) % m = 1
    /\ FDot(Mm, <<A, B, A>>, <<B, B, A>>) = Num((a*b + b*b + a*a) % m)
    /\ FVAdd(Mm, <<A, B>>, <<B, B>>) = <<Num((a+b) % m), Num((2*b) % m)>>
    /\ FVScale(Mm, A, <<A, B>>) = <<Num((a*a) % m), Num((a*b) % m)>>
    /\ FVPow(Mm, <<A, B>>, "3") = <<Num((a*a*a) % m), Num((b*b*b) % m)>>
    /\ FMatVec(Mm, <<<<A, B>>, <<B, "1">>>>, <<B, A>>) = <<Num((2*a*b) % m), Num((b*b + a) % m)>>
    /\ FLin(Mm, <<A, B>>, <<<<A, "1", B>>, <<B, A, "0">>>>)
         = <<Num((a*a + b*b) % m), Num((a + a*b) % m), Num((a*b) % m)>>
NatOK ==
  \A a \in 0..40 : \A b \in 0..40 :
    LET A == Num(a * 997) B == Num(b * 31) IN
    /\ HexOf(a * 997) = A /\ IntOf(A) = a * 997 /\ Val(Num(a)) = a
    /\ FRed(Num(m), A) = Num((a * 997) % m)
    /\ IAdd(A, B) = Num(a*997 + b*31)
    /\ (a*997 >= b*31 => ISub(A, B) = Num(a*997 - b*31))
    /\ IMul(A, B) = Num(a*997 * b*31)
    /\ (b > 0 => IDiv(A, B) = Num((a*997) \div (b*31)) /\ IMod(A, B) = Num((a*997) % (b*31)))
    /\ IGcd(A, B) = Num(GcdNat(a*997, b*31))
    /\ ICmp(A, B) = (IF a*997 < b*31 THEN -1 ELSE IF a*997 = b*31 THEN 0 ELSE 1)
    /\ IPow(Num(a), b % 5) = Num(NatPow(a, b % 5))
    /\ LET k == IBits(A) IN IF a = 0 THEN k = 0
                            ELSE NatPow(2, k - 1) <= a*997 /\ a*997 < NatPow(2, k)
    /\ ToLE(A, 3) = <<(a*997) % 256, ((a*997) \div 256) % 256, (a*997) \div 65536>>
    /\ FromLE(<<a, b, a>>) = Num(a + 256 * b + 65536 * a)
SelfTest == FieldOK /\ NatOK
=============================================================================
