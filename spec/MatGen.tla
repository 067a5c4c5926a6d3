------------------------------- MODULE MatGen -------------------------------
EXTENDS MatOps, Rnd, IOUtils, Emit
Deep == IOEnv.TIER = "thorough"
Seed == atoi(IOEnv.VERIF_SEED) % 40000
Modes == <<"N", "A", "B", "AB">>
D == IF Deep THEN 4 ELSE 3
NEx == D * D * D * 4 * 2                    \* every m, k, n up to D, every mode, both operations
NR == IF Deep THEN 20000 ELSE 2500
Big == <<1, 2, 3, 4, 5, 7, 8, 9, 13, 16, 17>>
Leads == << <<>>, <<>>, <<>>, <<1>>, <<2>>, <<3>>, <<2, 2>>, <<1, 3>>, <<3, 2>>, <<2, 1, 2>> >>
(* mostly small integers; some operands hold zeros and values that are not finite *)
Vals(c, t, n) == CASE RP(c, t, 20) -> [i \in 1..n |-> IF RP(c, t + 3 * i, 30) THEN 0 ELSE RN(c, t + i, 19) - 9]
                   [] RP(c, t - 1, 15) -> [i \in 1..n |-> CASE RP(c, t + 3 * i, 12) -> PInf [] RP(c, t + 3 * i + 1, 12) -> NInf [] RP(c, t + 3 * i + 2, 6) -> NotNum [] OTHER -> RN(c, t + i, 5) - 2]
                   [] OTHER -> [i \in 1..n |-> RN(c, t + i, 19) - 9]
Mk(op, mode, la, lb, m, k, n, c, id, skew) ==
  LET ash == la \o (IF mode \in {"A", "AB"} THEN <<k, m>> ELSE <<m, k>>)
      kb == IF skew = 1 THEN k + 1 ELSE k
      bsh == IF op = "matmul" THEN lb \o (IF mode \in {"B", "AB"} THEN <<n, kb>> ELSE <<kb, n>>)
             ELSE lb \o (IF skew = 2 THEN <<kb>> ELSE <<n, kb>>)
      a == TLCEval(Vals(c, 1000, Size(ash)))
      ali == RS(c, 7, <<0, 0, 0, 1, 2, 3, 4>>)
  IN [id |-> id, op |-> op, mode |-> mode, ash |-> ash, bsh |-> bsh, a |-> a,
      b |-> IF ali \in {3, 4} /\ Size(bsh) <= Size(ash) THEN SubSeq(a, 1, Size(bsh)) ELSE Vals(c, 5000, Size(bsh)),
      (* how the operands are stored: 0 apart, 1 and 2 side by side in one buffer (either order), 3 and 4 the second at the start of the first *)
      ali |-> IF ali \in {3, 4} /\ Size(bsh) > Size(ash) THEN 2 ELSE ali,
      asc |-> IF RP(c, 8, 20) THEN RS(c, 9, <<-60, -30, -12, 5, 30, 50>>) ELSE 0, bsc |-> IF RP(c, 10, 20) THEN RS(c, 22, <<-60, -30, -12, 5, 30, 40>>) ELSE 0,
      form |-> RN(c, 1, 3), apad |-> IF RP(c, 2, 35) THEN RN(c, 3, 5) ELSE 0, bpad |-> IF RP(c, 4, 35) THEN RN(c, 5, 5) ELSE 0]
Exh(i) == LET j == i - 1
              op == IF j % 2 = 0 THEN "matmul" ELSE "matvec"
              md == Modes[((j \div 2) % 4) + 1]
              m == ((j \div 8) % D) + 1  k == ((j \div (8 * D)) % D) + 1  n == ((j \div (8 * D * D)) % D) + 1
          IN Mk(op, md, <<>>, <<>>, m, k, n, <<Seed, i>>, i, 0)
Rand(i) == LET c == <<Seed, i>>
               op == IF RP(c, 11, 65) THEN "matmul" ELSE "matvec"
               la == RS(c, 12, Leads)
               lb == IF RP(c, 13, 85) THEN la ELSE RS(c, 14, Leads)
               vec == op = "matvec" /\ RP(c, 15, 40)
               small == Len(la) + Len(lb) > 2
               dim(t) == IF small THEN 1 + RN(c, t, 4) ELSE RS(c, t, Big)
           IN Mk(op, RS(c, 16, Modes), la, IF op = "matvec" /\ RP(c, 21, 40) THEN <<2>> \o la ELSE lb, dim(17), dim(18), dim(19), c, i,
                 IF RP(c, 20, 10) THEN 1 ELSE IF vec THEN 2 ELSE 0)
(* one dimension large, and long batches *)
BigDims == << <<130, 2, 3>>, <<2, 130, 3>>, <<3, 2, 130>>, <<300, 2, 2>>, <<2, 300, 2>>, <<2, 2, 300>>, <<40, 37, 2>>, <<2, 33, 41>>, <<36, 3, 35>>, <<1, 260, 1>>, <<260, 1, 1>>, <<1, 1, 260>> >>
LongLeads == << <<40>>, <<5, 8>>, <<300>>, <<3, 4, 5>> >>
Nl == Len(BigDims) * 8 + Len(LongLeads) * 8
Large(i) == LET j == i - 1
                op == IF j % 2 = 0 THEN "matmul" ELSE "matvec"
                md == Modes[((j \div 2) % 4) + 1]
                w == (j \div 8) + 1
                c == <<Seed, 70000 + i>>
            IN IF w <= Len(BigDims) THEN Mk(op, md, <<>>, <<>>, BigDims[w][1], BigDims[w][2], BigDims[w][3], c, 70000 + i, 0)
               ELSE LET la == LongLeads[w - Len(BigDims)] IN
                    Mk(op, md, IF op = "matvec" /\ RP(c, 31, 50) THEN <<>> ELSE la, la, 1 + RN(c, 32, 3), 1 + RN(c, 33, 3), 1 + RN(c, 34, 3), c, 70000 + i, 0)
(* one dimension swept: every length up to 140, then some beyond *)
Sweep == [i \in 1..140 |-> i] \o <<160, 161, 191, 192, 193, 194, 200, 225, 240, 241, 255, 256, 257, 258, 288, 289, 320, 321, 383, 384, 385, 386, 400, 448, 481, 500, 510, 511, 512, 513, 514, 600, 641, 768, 769, 1000, 1024, 1025, 1026>>
Ns == Len(Sweep) * 4
Swept(i) == LET j == i - 1
                d == Sweep[(j \div 4) + 1]
                c == <<Seed, 90000 + i>>
                op == IF (j + d) % 3 = 0 THEN "matvec" ELSE "matmul"
                md == Modes[(IF op = "matvec" THEN (d % 2) ELSE ((d + j) % 4)) + 1]
                s1 == 1 + RN(c, 41, 2)  s2 == 1 + RN(c, 42, 2)
            IN CASE j % 4 = 0 -> Mk(op, md, <<>>, <<>>, d, s1, s2, c, 90000 + i, 0)
                 [] j % 4 = 1 -> Mk(op, md, <<>>, <<>>, s1, s2, d, c, 90000 + i, 0)
                 [] OTHER -> Mk(op, md, <<>>, <<>>, s1, d, s2, c, 90000 + i, 0)
VARIABLES n, pos
Init == n \in 1..(NEx + NR + Nl + Ns) /\ pos = 0
Keep(r) == Len(r.ash) <= MaxRank /\ Len(r.bsh) <= MaxRank
Next == /\ pos = 0 /\ pos' = 1 /\ n' = n
        /\ \E r \in {IF n <= NEx THEN Exh(n) ELSE IF n <= NEx + NR THEN Rand(n) ELSE IF n <= NEx + NR + Nl THEN Large(n - NEx - NR) ELSE Swept(n - NEx - NR - Nl)} : Keep(r) => EmitRow(r)
=============================================================================
