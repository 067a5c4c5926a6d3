------------------------------ MODULE RtenGen ------------------------------
EXTENDS Integers, Sequences, SeedVals, Rnd, IOUtils, Emit
Deep == IOEnv.TIER = "thorough"
Key == atoi(IOEnv.VERIF_SEED) % 40000
NR == IF Deep THEN 12000 ELSE 900
Shapes == << <<>>, <<1>>, <<5>>, <<0>>, <<2, 3>>, <<3, 2>>, <<1, 4>>, <<4, 1>>, <<2, 2, 2>>, <<3, 0, 2>>, <<2, 1, 3>>, <<1, 2, 1, 3>>, <<1, 1, 2, 1, 2>>, <<40>>, <<2, 1, 1, 2, 1, 2>> >>
Vals == <<0, 8, -8, 1, -3, 16, 80, -80, 800, 20, -12, 4, 8000, 7>>
(* in larger tensors the elements at some positions: both ends, around multiples of powers of two, anywhere *)
Big == << <<300>>, <<1030>>, <<17, 31>>, <<5, 7, 11>>, <<2, 129>>, <<4099>>, <<66000>> >>
RECURSIVE Pr(_)
Pr(s) == IF s = <<>> THEN 1 ELSE Head(s) * Pr(Tail(s))
At_(c, m) == IF m <= 40 THEN [i \in 1..m |-> i - 1]
             ELSE <<0, 1, 2, m - 1, m - 2, m \div 2>> \o SelectSeq(<<31, 32, 63, 64, 127, 128, 255, 256, 257, 1023, 1024, 4095, 4096, 65535, 65536>>, LAMBDA i : i < m) \o [k \in 1..6 |-> RN(c, 900 + k, m)]
NB == IF Deep THEN 60 ELSE 6
VARIABLES n, pos
NQ == NR + NB * Len(Big)
SV == SpecialSeeds64
(* every special seed with both distributions *)
Init == n \in 1..(NQ + 2 * Len(SV)) /\ pos = 0
SeedV(c, k) == IF RP(c, k, 20) THEN <<>> ELSE IF RP(c, k + 1, 30) THEN <<RN(c, k + 2, 4095) + 1>> ELSE [j \in 1..6 |-> IF j < 6 THEN RN(c, k + 2 + j, 4096) ELSE RN(c, k + 2 + j, 15) + 1]
Step_(c, k, kinds) == [k |-> RS(c, k, kinds), x |-> RS(c, k + 1, Vals), y |-> RS(c, k + 2, Vals), s |-> SeedV(c, k + 3)]
Starts == <<"a", "b", "seed", "seed", "some", "default", "none", "pair">>
Withs == <<"wa", "wb", "ws", "ws">>
Case(i) ==
  LET c == <<Key, i>>  sh == IF i <= NR THEN RS(c, 2, Shapes) ELSE Big[((i - NR) % Len(Big)) + 1] IN
  [id |-> i, k |-> IF RP(c, 1, 50) THEN "normal" ELSE "uniform", sh |-> sh, at |-> At_(c, Pr(sh)), form |-> RN(c, 3, 3), meth |-> RP(c, 4, 50),
   g |-> [j \in 1..6 |-> IF j < 6 THEN RN(c, 10 + j, 4096) ELSE RN(c, 10 + j, 15) + 1],
   steps |-> <<Step_(c, 50, Starts)>> \o [j \in 1..RN(c, 5, 5) |-> Step_(c, 50 + 30 * j, Withs)]]
Spec_(i) ==
  LET s == SV[((i - 1) \div 2) + 1]  k == IF i % 2 = 0 THEN "normal" ELSE "uniform" IN
  [id |-> NQ + i, k |-> k, sh |-> <<3>>, at |-> <<0, 1, 2>>, form |-> 0, meth |-> (i % 4) < 2, g |-> <<7, 7>>,
   steps |-> IF i % 3 = 0 THEN <<[k |-> "seed", x |-> 0, y |-> 0, s |-> s]>>
             ELSE <<[k |-> "a", x |-> 8, y |-> 0, s |-> <<>>], [k |-> "ws", x |-> 0, y |-> 0, s |-> s]>>]
Next == pos = 0 /\ pos' = 1 /\ n' = n /\ EmitRow(IF n <= NQ THEN Case(n) ELSE Spec_(n - NQ))
=============================================================================
