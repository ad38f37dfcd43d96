------------------------------ MODULE Keccak ------------------------------
(***************************************************************************)
(* Keccak-f[1600] (FIPS 202) on a state of 200 bytes.  A 64-bit lane is a  *)
(* sequence of four 16-bit words, least significant first, so that every   *)
(* operation stays within TLC's integers.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Bitwise, TLC, Eval

LXor(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2], a[3] ^^ b[3], a[4] ^^ b[4]>>
LChi(a, b, c) ==   \* a xor ((not b) and c)
  <<a[1] ^^ ((65535 - b[1]) & c[1]), a[2] ^^ ((65535 - b[2]) & c[2]),
    a[3] ^^ ((65535 - b[3]) & c[3]), a[4] ^^ ((65535 - b[4]) & c[4])>>
P2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536>>
\* rotate left by n, 0 <= n < 64
LRot(a, n) ==
  LET q == n \div 16 r == n % 16
      w(i) == a[((i - q + 3) % 4) + 1]           \* word moved into position i (i = 1..4)
      hi(x) == (x % P2[17 - r]) * P2[r + 1]      \* low 16-r bits, shifted up
      lo(x) == x \div P2[17 - r]                 \* top r bits
  IN [i \in 1..4 |-> IF r = 0 THEN w(i) ELSE hi(w(i)) + lo(w(i - 1))]

RotOffset ==   \* RotOffset[x+1][y+1]
  << <<0, 36, 3, 41, 18>>, <<1, 44, 10, 45, 2>>, <<62, 6, 43, 15, 61>>,
     <<28, 55, 25, 21, 56>>, <<27, 20, 39, 8, 14>> >>
RoundConst ==
  << <<1,0,0,0>>, <<32898,0,0,0>>, <<32906,0,0,32768>>, <<32768,32768,0,32768>>,
     <<32907,0,0,0>>, <<1,32768,0,0>>, <<32897,32768,0,32768>>, <<32777,0,0,32768>>,
     <<138,0,0,0>>, <<136,0,0,0>>, <<32777,32768,0,0>>, <<10,32768,0,0>>,
     <<32907,32768,0,0>>, <<139,0,0,32768>>, <<32905,0,0,32768>>, <<32771,0,0,32768>>,
     <<32770,0,0,32768>>, <<128,0,0,32768>>, <<32778,0,0,0>>, <<10,32768,0,32768>>,
     <<32897,32768,0,32768>>, <<32896,0,0,32768>>, <<1,32768,0,0>>, <<32776,32768,0,32768>> >>

Ix(x, y) == 5 * y + x + 1     \* lane (x, y), 0 <= x, y < 5

Theta(A) ==
  LET C == Force([x \in 0..4 |-> LXor(LXor(LXor(A[Ix(x,0)], A[Ix(x,1)]), LXor(A[Ix(x,2)], A[Ix(x,3)])), A[Ix(x,4)])])
      D == Force([x \in 0..4 |-> LXor(C[(x + 4) % 5], LRot(C[(x + 1) % 5], 1))])
  IN [i \in 1..25 |-> LXor(A[i], D[(i - 1) % 5])]
\* lane (y, 2x+3y) of the result is lane (x, y) rotated: source of position i
RhoPi(A) ==
  [i \in 1..25 |->
     LET X == (i - 1) % 5 Y == (i - 1) \div 5
         x == (3 * (Y + 2 * X)) % 5        \* X = y, Y = 2x + 3y mod 5
     IN LRot(A[Ix(x, X)], RotOffset[x + 1][X + 1])]
Chi(B) == [i \in 1..25 |->
            LET x == (i - 1) % 5 y == (i - 1) \div 5
            IN LChi(B[i], B[Ix((x + 1) % 5, y)], B[Ix((x + 2) % 5, y)])]
Iota(A, r) == [A EXCEPT ![1] = LXor(A[1], RoundConst[r])]

OneRound(A, r) == Force(Iota(Force(Chi(Force(RhoPi(Force(Theta(A)))))), r))
Rounds24 == [r \in 1..24 |-> r]

KeccakFDef(b) ==
  LET A == Force([i \in 1..25 |-> [w \in 1..4 |->
                 LET o == 8 * (i - 1) + 2 * (w - 1) IN b[o + 1] + 256 * b[o + 2]]])
      Z == FoldLeft(OneRound, A, Rounds24)
  IN [k \in 1..200 |->
        LET i == (k - 1) \div 8 + 1 w == (((k - 1) % 8) \div 2) + 1
        IN IF k % 2 = 1 THEN Z[i][w] % 256 ELSE Z[i][w] \div 256]
\* evaluated by Keccak.java; KeccakSelfTest compares the two
KeccakF(b) == KeccakFDef(b)
=============================================================================
