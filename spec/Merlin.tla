------------------------------ MODULE Merlin ------------------------------
(***************************************************************************)
(* The Merlin transcript over STROBE-128 (merlin.cool), as a state machine *)
(* on records [st (200 bytes), pos, pb]; every operation maps a transcript *)
(* to the next one, challenges also return bytes.                          *)
(***************************************************************************)
EXTENDS Keccak

R == 166                      \* STROBE rate of the 128-bit security level
FI == 1  FA == 2  FC == 4  FM == 16

\* ASCII
Chars == " !#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Codes == <<32,33>> \o [i \in 1..57 |-> 34 + i] \o <<93,94,95,96>> \o [i \in 1..30 |-> 96 + i]
Ascii(s) == [i \in 1..Len(s) |-> Codes[CHOOSE k \in 1..Len(Chars) : SubSeq(Chars, k, k) = SubSeq(s, i, i)]]

LE4(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216>>
LE8(n) == LE4(n) \o <<0, 0, 0, 0>>

RunF(S) ==
  [st  |-> KeccakF([[[S.st EXCEPT ![S.pos + 1] = @ ^^ S.pb] EXCEPT ![S.pos + 2] = @ ^^ 4] EXCEPT ![R + 2] = @ ^^ 128]),
   pos |-> 0, pb |-> 0]

AbsorbByte(S, b) ==
  LET T == Force([S EXCEPT !.st[S.pos + 1] = @ ^^ b, !.pos = @ + 1])
  IN IF T.pos = R THEN Force(RunF(T)) ELSE T
Absorb(S, d) == FoldLeft(AbsorbByte, S, d)

BeginOp(S, flags) ==
  LET T == Force(Absorb([S EXCEPT !.pb = S.pos + 1], <<S.pb, flags>>))
  IN IF (flags \div FC) % 2 = 1 /\ T.pos # 0 THEN Force(RunF(T)) ELSE T

MetaAD(S, d) == Absorb(BeginOp(S, FM + FA), d)
MoreMetaAD(S, d) == Absorb(S, d)
AD(S, d) == Absorb(BeginOp(S, FA), d)

SqueezeByte(Z, i) ==
  LET S == Z.t
      T == Force([S EXCEPT !.st[S.pos + 1] = 0, !.pos = @ + 1])
  IN [t |-> IF T.pos = R THEN Force(RunF(T)) ELSE T, out |-> Append(Z.out, S.st[S.pos + 1])]
PRF(S, n) == FoldLeft(SqueezeByte, [t |-> BeginOp(S, FI + FA + FC), out |-> <<>>], [i \in 1..n |-> i])

StrobeNew(label) ==
  LET raw == <<1, R + 2, 1, 0, 1, 96>> \o Ascii("STROBEv1.0.2")
      st0 == [i \in 1..200 |-> IF i <= Len(raw) THEN raw[i] ELSE 0]
  IN MetaAD([st |-> KeccakF(Force(st0)), pos |-> 0, pb |-> 0], label)

AppendMessage(S, label, msg) == AD(MoreMetaAD(MetaAD(S, label), LE4(Len(msg))), msg)
Challenge(S, label, n) == PRF(MoreMetaAD(MetaAD(S, label), LE4(n)), n)
TranscriptNew(label) == AppendMessage(StrobeNew(Ascii("Merlin v1.0")), Ascii("dom-sep"), label)
=============================================================================
