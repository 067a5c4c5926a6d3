------------------------------- MODULE FftGen -------------------------------
EXTENDS Integers, Sequences, Rnd, IOUtils, Emit
Deep == IOEnv.TIER = "thorough"
Key == atoi(IOEnv.VERIF_SEED) % 40000
NR == IF Deep THEN 6000 ELSE 800
Lens == <<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 24, 32>> \o <<33, 40, 48, 64, 65, 100, 128>> \o (IF Deep THEN <<129, 200, 256, 257>> ELSE <<>>)
Leads == << <<>>, <<1>>, <<2>>, <<3>>, <<5>>, <<2, 2>>, <<3, 1>>, <<1, 3>>, <<2, 1, 2>>, <<1, 1, 1, 1>>, <<1, 2, 1, 2>>, <<2, 1, 1, 1, 2>> >>
(* long rows, of which a few or all outputs are requested; many rows *)
Long == << <<200, -1>>, <<201, 7>>, <<255, 5>>, <<256, -1>>, <<257, 9>>, <<300, 4>>, <<511, 6>>, <<512, 3>>, <<513, 6>>, <<600, 12>>, <<1000, 5>>, <<1024, 3>>, <<1025, 3>>, <<2048, 2>>, <<4096, 2>> >>
Many == << <<300, 4>>, <<257, 3>>, <<1025, 2>>, <<130, 6>>, <<40, 16>>, <<70, 9>> >>
NX == Len(Long) + Len(Many)
VARIABLES n, pos
Init == n \in 1..(NR + 2 * NX) /\ pos = 0
RECURSIVE Pr(_)
Pr(s) == IF s = <<>> THEN 1 ELSE Head(s) * Pr(Tail(s))
Val(c, k, i, j, len) ==
  CASE k = 0 -> RN(c, 1000 + 97 * i + j, 129) - 64
    [] k = 1 -> IF j = 1 + ((i * 3) % len) THEN 8 ELSE 0          \* impulse
    [] k = 2 -> 8 * i                                           \* constant row
    [] k = 3 -> IF (j * i) % 2 = 0 THEN 16 ELSE -16
    [] k = 4 -> 8 * (((j * (i + 1)) % len) - (len \div 2))      \* ramps of different slope
    [] OTHER -> IF i % 2 = 0 THEN 0 ELSE RN(c, 1000 + 97 * i + j, 129) - 64
Wide(m) ==
  LET c == <<Key, m>>
      x == ((m - NR - 1) % NX) + 1
      long == x <= Len(Long)
      lead == IF long THEN <<>> ELSE IF m % 2 = 0 THEN << Many[x - Len(Long)][1] >> ELSE << 2, Many[x - Len(Long)][1] \div 2 >>
      rows == Pr(lead)
      len == IF long THEN Long[x][1] ELSE Many[x - Len(Long)][2]
      k == IF m > NR + NX THEN 0 ELSE IF long THEN RS(c, 3, <<1, 2>>) ELSE RS(c, 3, <<0, 4>>)
  IN [id |-> m, sc |-> 0, lead |-> lead, len |-> len, fl |-> IF long THEN Long[x][2] ELSE -1, twice |-> FALSE, arg |-> RP(c, 8, 30), pad |-> IF RP(c, 9, 40) THEN 1 + RN(c, 10, 6) ELSE 0,
      rows |-> [i \in 1..rows |-> [j \in 1..len |-> Val(c, k, i, j, len)]]]
Case(m) ==
  IF m > NR THEN Wide(m) ELSE
  LET c == <<Key, m>>
      len == IF m <= Len(Lens) THEN Lens[m] ELSE RS(c, 1, Lens)
      lead == IF len > 128 THEN RS(c, 2, SubSeq(Leads, 1, 3)) ELSE IF len > 40 THEN RS(c, 2, SubSeq(Leads, 1, 5)) ELSE RS(c, 2, Leads)
      rows == Pr(lead)
      k == IF m <= Len(Lens) THEN 0 ELSE RN(c, 3, 7)
      half == (len \div 2) + 1
      fl == IF m <= Len(Lens) THEN -1 ELSE IF RP(c, 4, 45) THEN -1 ELSE RS(c, 5, <<1, 2, half - 1, half, half + 1, len, len + 3, 2 * len, 1 + RN(c, 6, 40)>>)
  IN [id |-> m, sc |-> IF RP(c, 11, 30) THEN RS(c, 12, <<-40, -20, -7, 7, 20, 40>>) ELSE 0, lead |-> lead, len |-> len, fl |-> IF fl = 0 THEN 1 ELSE fl, twice |-> RP(c, 7, 30), arg |-> RP(c, 8, 30), pad |-> IF RP(c, 9, 40) THEN 1 + RN(c, 10, 6) ELSE 0,
      rows |-> [i \in 1..rows |-> [j \in 1..len |-> Val(c, k, i, j, len)]]]
Next == pos = 0 /\ pos' = 1 /\ n' = n /\ EmitRow(Case(n))
=============================================================================
