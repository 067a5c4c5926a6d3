------------------------------ MODULE HistGen ------------------------------
EXTENDS HistOps, Rnd, IOUtils, Emit
Deep == IOEnv.TIER = "thorough"
Key == atoi(IOEnv.VERIF_SEED) % 40000
NR == IF Deep THEN 20000 ELSE 1500
Bins == <<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 10, 12, 16, 20, 31, 32, 64, 100, 129, 257, 300, 513, 600, 1025>>
Lens == <<1, 2, 3, 4, 5, 8, 13, 30, 100, 300>>
Spans == <<1, 2, 3, 4, 7, 8, 10, 12, 16, 20, 32, 48, 64, 100, 160, 320, 512, 1000, 1024, 2050, 4100>>
VARIABLES n, pos
Init == n \in 1..NR /\ pos = 0
Base(c) == IF RP(c, 1, 25) THEN 0 ELSE IF RP(c, 2, 10) THEN RS(c, 3, <<100000, -100000, 4096, 1000000, -3000001, 8000000, -8000000, 8000001>>) ELSE RN(c, 4, 200) - 150
(* data in lo..lo+w; ends present with high probability *)
Data(c, k, len) == LET lo == Base(<<c[1], c[2], k>>)  w == RS(c, k + 1, Spans) IN
   IF RP(c, k + 2, 8) THEN [i \in 1..len |-> lo]
   ELSE [i \in 1..len |-> IF i = 1 + (RN(c, k + 3, len)) THEN lo ELSE IF i = 1 + RN(c, k + 4, len) THEN lo + w ELSE lo + RN(c, k + 5 + 2 * i, w + 1)]
(* for pairs: keep clear of the edges that rounding may move *)
RECURSIVE Clear(_, _, _, _)
Clear(v, lo, w, nb) == IF w > 0 /\ OnEdge(v, lo, w, nb) THEN Clear(v + 1, lo, w, nb) ELSE v
Unedge(d, nb) == LET lo == Lo(d)  w == Hi(d) - Lo(d) IN [i \in DOMAIN d |-> Clear(d[i], lo, w, nb)]
Case(i) ==
  LET c == <<Key, i>>
      nb == RS(c, 5, Bins)
      len == IF i \in {7, 8, 9} THEN 3 ELSE RS(c, 6, Lens)
      two == RP(c, 7, 45)
      nb2 == IF nb > 64 THEN 20 + (nb % 15) ELSE IF nb > 16 THEN nb - 15 ELSE nb
      bad == RP(c, 8, 6)
  IN [id |-> i, k |-> IF bad THEN RS(c, 9, <<"h1bad", "h2bad", "zero">>) ELSE IF two THEN "h2" ELSE "h1",
      nb |-> IF bad THEN 1 + RN(c, 10, 4) ELSE IF two THEN nb2 ELSE nb, arg |-> RN(c, 11, 3), sc |-> RS(c, 12, <<0, 0, 0, 1, 3, 7, 12, 30, 60, 90, -1, -10, -40, -90>>),
      rep |-> IF bad THEN 1 ELSE IF i \in {7, 8, 9} THEN <<70000, 300, 66000>>[i - 6] ELSE IF RP(c, 16, 12) THEN RS(c, 17, <<2, 50, 260, 1000>>) ELSE 1,
      pad |-> IF RP(c, 13, 40) THEN 1 + RN(c, 14, 4) ELSE 0,
      bsh |-> RS(c, 15, << <<>>, <<2, 2>>, <<2, 3>>, <<4>>, <<2, 2, 2>>, <<4, 1>>, <<1, 2, 2>>, <<2>> >>),
      x |-> IF two /\ ~bad THEN Unedge(Data(c, 1000, len), nb2) ELSE Data(c, 1000, len),
      y |-> IF two /\ ~bad THEN Unedge(Data(c, 3000, len), nb2) ELSE <<>>]
Next == pos = 0 /\ pos' = 1 /\ n' = n /\ EmitRow(Case(n))
=============================================================================
