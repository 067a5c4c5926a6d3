------------------------------ MODULE SpaceGen ------------------------------
EXTENDS TensorOps, Rnd, IOUtils, Emit
Deep == IOEnv.TIER = "thorough"
Seed == atoi(IOEnv.VERIF_SEED) % 40000
NR == IF Deep THEN 8000 ELSE 900
Ends == <<-40, -7, -4, -1, 0, 1, 3, 4, 9, 40>>
Steps == <<-12, -8, -4, -3, -1, 0, 1, 2, 4, 5, 7, 400>>
(* longer ranges, ending on, just after and between steps *)
Long == << <<0, 5200, 4>>, <<0, 5201, 4>>, <<7, 20010, 4>>, <<-3, 20002, 3>>, <<5000, -5000, -2>>, <<1, -20003, -4>>, <<-9000, 9001, 1>>, <<0, 65541, 2>>, <<66000, 0, -1>>,
           <<0, 1024, 1>>, <<0, 1025, 1>>, <<2048, 0, -1>>, <<-4096, 4096, 2>>, <<0, 16386, 4>> >>
NE == Len(Ends)
NAr == NE * NE * Len(Steps)
Ar(id, s, e, st) == [id |-> id, op |-> "arange", a |-> s, z |-> e, st |-> st, form |-> id % 2, sc |-> (<<0, 0, 0, 20, -20, 60, -60>>)[(id % 7) + 1]]
Shs == << <<>>, <<1>>, <<3>>, <<2, 2>>, <<1, 3>>, <<2, 1, 2>>, <<5>>, <<2, 3>>, <<7>>, <<3, 3>> >>
Lens == <<0, 1, 2, 3, 4, 5, 7, 9>>
Vals(c, op, t, n) == [i \in 1..n |->
   CASE op = "linspace" -> RN(c, t + i, 200) - 100
     [] op = "logspace" -> 4 * (RN(c, t + i, 5) - 2)
     [] op = "geomspace" -> 1 + RN(c, t + i, 400)]
Sp(c, op, id) ==
  LET sh == RS(c, 1, Shs)
      n0 == RS(c, 5, Lens)
      esh == IF RP(c, 2, 8) THEN RS(c, 3, Shs) ELSE sh
      s == Vals(c, op, 100, Size(sh))
      e == [i \in 1..Size(esh) |->
              IF i > Size(sh) THEN Vals(c, op, 200, Size(esh))[i]
              ELSE IF RP(c, 4, 8) THEN Vals(c, op, 300, Size(esh))[i]         \* possibly decreasing
              ELSE s[i] + (CASE op = "linspace" -> RN(c, 400 + i, 150) [] op = "logspace" -> 4 * RN(c, 400 + i, 4) [] op = "geomspace" -> RN(c, 400 + i, 900))]
  IN [id |-> id, op |-> op, ssh |-> sh, esh |-> esh, s |-> s, e |-> e, len |-> IF Size(sh) <= 3 /\ RP(c, 12, 12) THEN RS(c, 13, <<16, 33, 64, 100, 129, 257, 300, 513, 600>> \o (IF Size(sh) <= 1 THEN <<1025, 1400, 2100, 4099>> ELSE <<>>)) ELSE n0, form |-> RN(c, 6, 6), sc |-> IF op = "linspace" /\ RP(c, 10, 40) THEN RS(c, 11, <<20, -20, 60, -60>>) ELSE 0, base |-> RS(c, 7, <<10, 2, 3, 5, -2, -4, 1>>),
      pad |-> IF RP(c, 8, 30) THEN 1 + RN(c, 9, 3) ELSE 0]
VARIABLES n, pos
NRnd == NAr + 4 * NR
(* as many points as endpoint entries, and many endpoint entries *)
Wide == << << <<5>>, 5 >>, << <<2, 3>>, 6 >>, << <<3, 3>>, 9 >>, << <<3, 3>>, 3 >>, << <<16>>, 16 >>, << <<16>>, 4 >>, << <<130>>, 3 >>, << <<2, 130>>, 2 >>, << <<300>>, 2 >>, << <<257, 2>>, 3 >>, << <<1030>>, 2 >>, << <<33>>, 33 >>, << <<65>>, 129 >> >>
NW == Len(Wide)
WideCase(i) ==
  LET j == i - NRnd - Len(Long) - 1
      op == (<<"linspace", "logspace", "geomspace">>)[(j \div NW) + 1]
      w == Wide[(j % NW) + 1]
      m == Size(w[1])
      c == <<Seed, i>>
      s == Vals(c, op, 100, m)
  IN [id |-> i, op |-> op, ssh |-> w[1], esh |-> w[1], s |-> s,
      e |-> [q \in 1..m |-> s[q] + (CASE op = "linspace" -> RN(c, 2400 + q, 150) [] op = "logspace" -> 4 * RN(c, 2400 + q, 4) [] op = "geomspace" -> RN(c, 2400 + q, 900))],
      len |-> w[2], form |-> RN(c, 6, 6), sc |-> 0, base |-> RS(c, 7, <<10, 2, 3, 5, -2, -4, 1>>), pad |-> IF RP(c, 8, 30) THEN 1 + RN(c, 9, 3) ELSE 0]
Init == n \in 1..(NRnd + Len(Long) + 3 * NW) /\ pos = 0
Case(i) ==
  IF i > NRnd + Len(Long) THEN WideCase(i) ELSE IF i > NRnd THEN LET q == Long[i - NRnd] IN Ar(i, q[1], q[2], q[3])
  ELSE IF i <= NAr THEN LET j == i - 1 IN Ar(i, Ends[(j % NE) + 1], Ends[((j \div NE) % NE) + 1], Steps[(j \div (NE * NE)) + 1])
  ELSE LET j == i - NAr - 1  c == <<Seed, j \div 4, j % 4>>
       IN CASE j % 4 = 0 -> Ar(i, RN(c, 1, 400) - 200, RN(c, 2, 1200) - 600, IF RP(c, 3, 60) THEN RN(c, 4, 30) - 15 ELSE RN(c, 4, 1000) - 500)
            [] j % 4 = 1 -> Sp(c, "linspace", i) [] j % 4 = 2 -> Sp(c, "logspace", i) [] OTHER -> Sp(c, "geomspace", i)
Next == pos = 0 /\ pos' = 1 /\ n' = n /\ EmitRow(Case(n))
=============================================================================
