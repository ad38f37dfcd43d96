----------------------------- MODULE ParamGenMC -----------------------------
(***************************************************************************)
(* Checks of ParamGen itself: the published rows of the paper's Appendix G *)
(* (Tables 7, 8 and 9), the candidate order against all addition chains,   *)
(* and the evaluated search against the defining one.                      *)
(***************************************************************************)
EXTENDS ParamGen
VARIABLES i
\* M, t, p, alpha, r_F, r_P
AppendixG == <<
  <<128, 2, "d40c6141e5c17cff44a6bdf412441bb06ed9ed43e5d049df5831308ec80b4aa7175469627a9c4c6c5b01c59fa486a01ce5186a1b9a776aee157d87a5e20b6a286620a62cc545a8a6e4194c484b69afc4aeb13a121cdca4e5a52d0336867b9425", "3", 8, 83>>,
  <<128, 4, "9c1f2a9318819e7ce066c9912c64ef8f1ff9e55f1717108db40852c1f1277e382a58c96c7502c439adc528e918f245f3", "3", 8, 84>>,
  <<128, 6, "cc3c58d22431e72aedd10f515441ca7ed9f89e41d1ade2cfb0a8624e2c71aa23", "3", 8, 84>>,
  <<128, 8, "e00ca9e0f82d7f93243f547e95abdc9db05661b6d69a8917", "3", 8, 84>>,
  <<128, 16, "981fef4e7cce0beba86781e3", "3", 8, 64>>,
  <<256, 2, "eba32dfaa7491cb17afd35361f42c3701278058e0f35f81485de7dc3ab34396f557369e5b58b7d3385527aa4b93c0aa165619927502238964e382d41e24badbf6117b4bc11e6d986b4aaff185cfa944fb559f783b03a2f310e67db0827beeb5b", "3", 8, 170>>,
  <<256, 4, "fdf48e5f83c86ebdcff2a4f10bdb3a0e92a824e8973063ab79a32f94ca7e2e92b7b672465d5b5b16d85a3039e6687d0f", "3", 8, 171>>,
  <<256, 6, "933dcf6a87536bbe5e832f253fa769d3de27f77396cb0c4a08b44a55c1c4eea1", "3", 8, 171>>,
  <<256, 8, "f23d4451826152b75b6d0cac46b5d028d2341ceeae413d4d", "3", 8, 128>>,
  <<256, 16, "a6980df45841a146308dae41", "3", 8, 64>>,
  <<128, 2, "a8433a8f8e674d14bceec0e679e9f78a39ce28b895b7a95548676e6c2c183b927dd33b7cd91e910f5006227e47aefcb01a84e1af964a8625f7890e973fbc862cbceb30c232261e5a95a8aaf1649696850eccf69701cb352d25ff253c87c56563", "5", 8, 56>>,
  <<128, 4, "ffc8b03bb04f1b2d758260149f9f300ee3d3f8ced38b33181155302f92e88b55dce593af441077503756af313ba088ab", "5", 8, 56>>,
  <<128, 6, "c15d712d2c21b9f6fb66d66860846bdc4ff36b2b1e25dfb5fc476e2cc04caf53", "5", 8, 57>>,
  <<128, 8, "c5b7816b0eee039cc7682e75e18f4fbca5bd6af7affb8659", "5", 8, 57>>,
  <<128, 16, "f4728b028e544bc4955a9537", "5", 8, 42>>,
  <<256, 2, "8d2e4aaa995984b22da131012b7883d5ebdf7148d33b14faf3994629b970eaf56e2df675546a81dbeb16c046f9f0928b64f8e8e351983e3714e547e46a976e42e451fe2185cb7923fc14038b2c0efaf466c7fe49c12335a6259848ae17290b29", "5", 8, 116>>,
  <<256, 4, "cb21662c93f99af52ed4f259586ce3e081f347484f1d27898215936f4432abdd7bcdf40dfe9e4164f5f151332a8e263d", "5", 8, 116>>,
  <<256, 6, "e967d7ee858dc0d0ce1cc29c11497bad8e76eacd4fca5389c674c07dbfae4759", "5", 8, 117>>,
  <<256, 8, "a999c4cd0d2a62fba68ed4ea62972b0ab338c49ece94f5cb", "5", 8, 86>>,
  <<256, 16, "df8d9412c306c33cad193ec9", "5", 8, 42>>,
  <<128, 2, "8a597bcef7efb50399960b58325cdd45f4b6e1f42ebcbee35cb964d1bb496782500b1ca624c727035537f014b8d7f8dbe7e40fb54bea99c96f7ab50ec926fd74e6c6535e52a80b3e4f51d7d7428faf56021374a5b3183b92a2dd864e6c3ba91f", "inv", 8, 65>>,
  <<128, 4, "ee6c1024864bbb949e64d4d3d5d862c317baaa6fbf4f9707d910d42e21719481c4698ec27711c107b7df18c27d5781ab", "inv", 8, 60>>,
  <<128, 6, "a630fac0d381161e31f2b8d29cae30fb0e3ab8c3b9b707dab368e9520d033661", "inv", 8, 57>>,
  <<128, 8, "c7a0e4a5bbc309785bb066ff5617bffa1e24135d02597b41", "inv", 8, 54>>,
  <<128, 16, "b2a7cfcf586ecca9c1c4340f", "inv", 8, 32>>,
  <<256, 2, "98e732891c8358abfbd82cc314799bac7b319edb4c3b5227b6754fd3b703c836968f378db606d91c88b758f37d85823582948f15d5b5daf3a946d0858465b7ddafd17115e04b453a45f8a9cd82b0196eee559f8cf67ee8be9e33e6f11bdeb085", "inv", 8, 134>>,
  <<256, 4, "ce5963e77dbacec8ccd02016ee7eb202ca39d088af23bc227c1ae48786442613ff1228006c2f357fb91473641e9a6c05", "inv", 8, 128>>,
  <<256, 6, "ee54453da39d4db8cc942997d176497d63103cde755ee4c0cc4bbd78368efe19", "inv", 8, 126>>,
  <<256, 8, "ebe8ed6d00d837b2e2b0082d667899142a6b6bf96ef171bf", "inv", 8, 89>>,
  <<256, 16, "bd1b3f4fae5e5b2b158a9211", "inv", 8, 32>>
>>
AppendixGHolds ==
  \A k \in 1..Len(AppendixG) : LET r == AppendixG[k] IN
    /\ Rounds(1, r[1], r[2], r[3], r[4]) = <<r[5], r[6]>>
    /\ IF r[4] = "inv" THEN TRUE ELSE Rounds(2, r[1], r[2], r[3], r[4]) = <<r[5], r[6]>>
\* numbers whose shortest chains have exactly d steps, odd, at most 65 or listed
ChainOrder ==
  LET R == [d \in 1..6 |-> Force(ReachedBy(d))]
      odd(d) == {x \in R[d] : x % 2 = 1 /\ \A k \in 1..(d - 1) : x \notin R[k]}
      desc(S) == SetToSortSeq(S, LAMBDA x, y : x > y)
  IN desc(odd(3)) \o desc(odd(4)) \o desc(odd(5)) \o desc(odd(6))
Small == << <<1, 20, 3, "10001", "3">>, <<1, 64, 2, "10001", "inv">>, <<2, 40, 5, "10001", "5">>,
            <<1, 128, 3, "12ab655e9a2ca55660b44d1e5c37b00159aa76fed00000010a11800000000001", "11">> >>
SearchAgrees == \A k \in 1..Len(Small) : LET s == Small[k] IN
  RoundsDef(s[1], s[2], s[3], s[4], s[5]) = RoundsFast(s[1], s[2], s[3], s[4], s[5])
Init == i = 0
Next == i < 3 /\ i' = i + 1 /\ CASE i' = 1 -> Assert(AppendixGHolds, "Appendix G")
                                 [] i' = 2 -> Assert(ChainOrder = SubSeq(Candidates, 2, 14) /\ Candidates[1] = 3, "candidate order")
                                 [] i' = 3 -> Assert(SearchAgrees, "search")
=============================================================================
