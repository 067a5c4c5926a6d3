------------------------------ MODULE ReadGen ------------------------------
(* Portion lists (behaviours of the writer), regular files of all small and some large sizes, and files that cannot be opened. *)
EXTENDS ReadOps, Rnd, IOUtils, Emit
Deep == IOEnv.TIER = "thorough"
Key == atoi(IOEnv.VERIF_SEED) % 40000
NF == IF Deep THEN 900 ELSE 90
Sizes == <<1, 2, 7, 31, 32, 33, 64, 100, 255, 512, 1000, 1024, 4095, 4096, 4097, 8192, 8193>>
Fixed == <<0, 1, 2, 3, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 511, 512, 513, 1000, 4095, 4096, 4097, 8191, 8192, 8193, 20000, 65535, 65536, 65537, 70000, 131072, 200003>>
Odd == <<"missing", "dir", "nodir", "empty_name", "proc", "sys", "dangling", "link">>
(* regular files that the system hands out in portions; files that grow or shrink once reading has begun; large files *)
NP == IF Deep THEN 600 ELSE 80
Big == <<300000, 1048575, 1048576, 1048577, 2097169, 5000011, 16777215, 16777216, 16777223, 33554461>>
Caps == <<1, 2, 3, 5, 8, 31, 32, 33, 100, 511, 512, 513, 1000, 4096, 8191, 8192, 9000, 16384, 40000, 65536>>
Totals == <<1, 2, 5, 31, 32, 33, 64, 65, 200, 1000, 4096, 5000, 8192, 8193, 20000>>
Part(i, c, seed) ==
  LET k == RS(c, 2, <<"portions", "portions", "portions", "grow", "shrink">>)
      total == RS(c, 3, Totals) IN
  [id |-> i, k |-> k, seed |-> seed, form |-> RN(c, 4, 4),
   ch |-> CASE k = "grow" -> <<total, 1 + RN(c, 5, IF RP(c, 6, 50) THEN 40 ELSE 9000)>>
            [] k = "shrink" -> <<total>>
            [] OTHER -> <<total>>,
   keep |-> IF k = "shrink" THEN RN(c, 7, total) ELSE total,
   caps |-> IF k = "portions" \/ RP(c, 8, 40) THEN [j \in 1..(1 + RN(c, 9, 6)) |-> RS(c, 20 + j, Caps)] ELSE <<>>]
Large(i, seed) == LET j == i - 1  q == (j % Len(Big)) + 1 IN
  [k |-> "big", seed |-> seed, form |-> i % 4, ch |-> <<Big[q]>>, keep |-> Big[q],
   caps |-> IF j < Len(Big) THEN <<>> ELSE <<50000, 65536, 1000003>>]
NB == 2 * Len(Big)
N0 == Len(Fixed) + Len(Odd) + NF
VARIABLES n, pos
Init == n \in 1..(N0 + NP + NB) /\ pos = 0
Case(i) ==
  LET c == <<Key, i>>  seed == RN(c, 1, 250) IN
  IF i <= Len(Fixed) THEN [id |-> i, k |-> "file", seed |-> seed, ch |-> <<Fixed[i]>>, form |-> i % 4]
  ELSE IF i <= Len(Fixed) + Len(Odd) THEN [id |-> i, k |-> Odd[i - Len(Fixed)], seed |-> seed, ch |-> <<77>>, form |-> i % 4]
  ELSE IF i > N0 + NP THEN Large(i - N0 - NP, seed) @@ [id |-> i]
  ELSE IF i > N0 THEN Part(i, c, seed)
  ELSE [id |-> i, k |-> "fifo", seed |-> seed, form |-> RN(c, 2, 4),
        ch |-> [j \in 1..RN(c, 3, 7) |-> IF RP(c, 10 + 2 * j, 30) THEN 1 + RN(c, 11 + 2 * j, 5) ELSE RS(c, 11 + 2 * j, Sizes)]]
Next == pos = 0 /\ pos' = 1 /\ n' = n /\ EmitRow(Case(n))
=============================================================================
