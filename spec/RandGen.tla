------------------------------ MODULE RandGen ------------------------------
EXTENDS Integers, Sequences, SeedVals, Rnd, IOUtils, Emit
Deep == IOEnv.TIER = "thorough"
Seed == atoi(IOEnv.VERIF_SEED) % 40000
NR == IF Deep THEN 4000 ELSE 250
NS == IF Deep THEN 40 ELSE 18
(* seeds after which the first or second output is 0, the maximum or 1 *)
Sp32 == << <<>>, <<1>>, <<2>>, <<4095, 4095, 4095, 4095, 4095, 15>>,
   <<1696, 3912, 4010, 3610, 2265, 9>>, <<847, 471, 1481, 2132, 2408, 4>>, <<1696, 3912, 3754, 2255, 2616, 15>>, <<847, 471, 2249, 2845, 1976, 11>>,
   <<1696, 3912, 426, 1080, 1864, 1>>, <<847, 471, 4041, 684, 3337, 6>> >>
Sp64 == << <<>>, <<1>>, <<2>>, <<4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 255>>,
   <<4056, 1764, 516, 146, 574, 173, 3090, 3656, 276, 328, 198>>, <<2151, 2523, 1365, 2038, 4010, 1378, 1314, 1230, 4060, 2144, 156>>,
   <<4056, 1764, 3844, 843, 1315, 488, 2382, 613, 2965, 1073, 194>>, <<2151, 2523, 1621, 688, 3295, 3306, 2497, 1565, 733, 3926, 10>>,
   <<4056, 1764, 2564, 3742, 3398, 725, 2819, 2874, 3674, 140, 4>>, <<2151, 2523, 3413, 1372, 743, 1601, 2975, 1148, 3000, 1920, 13>> >>
Bytes == <<97, 122, 32, 48, 65, 33, 126, 9>>
VARIABLES n, pos
NQ == 120 + 4 * NR
V32 == SpecialSeeds64
V64 == SmallVals \o PowVals(128)
(* every special seed, in both generators *)
Init == n \in 1..(NQ + Len(V32) + Len(V64)) /\ pos = 0
Ops == <<"next", "uniform", "normal">>
Ops2 == <<"next", "uniform", "normal", "next", "uniform", "normal", "next", "uniform", "normal", "skip">>
Fixed(o) == [k \in 1..NS |-> o]
Case(i) ==
  LET c == <<Seed, i>>
      w == IF i % 2 = 0 THEN 32 ELSE 64
      sp == IF w = 32 THEN Sp32 ELSE Sp64
      j == (i - 1) \div 2
      text == i > 60 /\ RP(c, 1, 40)
      ev == IF i <= 60 THEN Fixed(Ops[(j \div 10) + 1]) ELSE [k \in 1..NS |-> RS(c, 100 + k, Ops2)]
      limbs == [k \in 1..(IF w = 32 THEN 6 ELSE 11) |-> IF k < (IF w = 32 THEN 6 ELSE 11) THEN RN(c, 200 + k, 4096) ELSE RN(c, 200 + k, IF w = 32 THEN 15 ELSE 255) + 1]
      small == << RN(c, 3, 4095) + 1 >>
      bytes == [k \in 1..(IF RP(c, 8, 25) THEN RS(c, 9, <<15, 16, 17, 31, 32, 33, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1000>>) ELSE RN(c, 4, 12)) |-> RS(c, 300 + k, Bytes)] \o (IF RP(c, 5, 20) THEN <<195, 169>> ELSE <<>>)
  IN [id |-> i, w |-> w, text |-> text, bytes |-> IF text THEN bytes ELSE <<>>,
      seed |-> IF text THEN <<>> ELSE IF i <= 60 THEN sp[(j % 10) + 1] ELSE IF RP(c, 2, 40) THEN small ELSE limbs,
      skip |-> IF RP(c, 6, 50) THEN 1 + RN(c, 7, 40) ELSE 1 + RN(c, 7, IF Deep THEN 300000 ELSE 5000), ops |-> ev]
Spec_(i) ==
  LET w == IF i <= Len(V32) THEN 32 ELSE 64
  IN [id |-> NQ + i, w |-> w, text |-> FALSE, bytes |-> <<>>, seed |-> IF w = 32 THEN V32[i] ELSE V64[i - Len(V32)], skip |-> 1,
      ops |-> <<"next", "uniform", "next">>]
Next == pos = 0 /\ pos' = 1 /\ n' = n /\ EmitRow(IF n <= NQ THEN Case(n) ELSE Spec_(n - NQ))
=============================================================================
