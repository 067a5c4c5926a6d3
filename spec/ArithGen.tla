------------------------------ MODULE ArithGen ------------------------------
(* One table row per function, then per function and operand form a set of operand shapes with values drawn from the pools. *)
EXTENDS ArithOps, Rnd, IOUtils, Emit
Deep == IOEnv.TIER = "thorough"
Seed == atoi(IOEnv.VERIF_SEED) % 40000
Rep == IF IOEnv.FOCUS = "C03" THEN 1 ELSE IF Deep THEN 12 ELSE 2
F == TLCEval(Fns)
N == Len(F)
Sh1 == << <<4>>, <<2, 3>>, <<>>, <<2, 1, 2>>, <<0>>, <<2, 2, 1, 2>> >>
Sh2 == << << <<3>>, <<3>> >>, << <<2, 3>>, <<3>> >>, << <<3>>, <<2, 3>> >>, << <<>>, <<2, 2>> >>, << <<2, 2, 2>>, <<2, 2>> >>, << <<2, 3>>, <<2>> >>,
          << <<1, 3>>, <<2, 3>> >>, << <<2, 1, 2>>, <<>> >>, << <<0>>, <<0>> >>, << <<2>>, <<3, 1, 2>> >>, << <<3, 2>>, <<3, 2>> >>, << <<>>, <<>> >> >>
ShS == << << <<4>>, <<>> >>, << <<2, 3>>, <<>> >>, << <<>>, <<>> >>, << <<0>>, <<>> >> >>
ShL == << << <<>>, <<4>> >>, << <<>>, <<3, 2>> >>, << <<>>, <<>> >> >>
Sh3 == << << <<3>>, <<3>>, <<3>> >>, << <<2, 3>>, <<3>>, <<>> >>, << <<>>, <<2>>, <<2, 2>> >>, << <<2, 2>>, <<3>>, <<2, 2>> >>, << <<2>>, <<3, 2>>, <<2>> >>,
          << <<2, 2>>, <<2, 2>>, <<3>> >> >>
Big1 == << <<1030>> >>
Big2 == << << <<1030>>, <<1030>> >>, << <<33, 32>>, <<32>> >>, << <<32>>, <<40, 32>> >>, << <<5, 260>>, <<>> >> >>
BigS == << << <<1030>>, <<>> >> >>
BigL == << << <<>>, <<1030>> >> >>
IsBig(f) == f.ty \in {"sym", "f32", "i32"} /\ f.op \in {"add", "sub", "div", "xor", "neg", "not", "sin", "abs", "powf", "min"}
Shapes0(f, form) == IF Len(f.pools) = 1 THEN [i \in DOMAIN Sh1 |-> <<Sh1[i]>>] ELSE IF Len(f.pools) = 3 THEN Sh3
                      ELSE IF form \in {4, 5, 9} THEN ShS ELSE IF form \in {6, 7} THEN ShL ELSE Sh2
Shapes(f, form) == Shapes0(f, form) \o (IF ~IsBig(f) THEN <<>> ELSE IF Len(f.pools) = 1 THEN << Big1 >> ELSE IF form \in {4, 5, 9} THEN BigS ELSE IF form \in {6, 7} THEN BigL ELSE Big2)
(* which shapes: all of them in the deep tier, otherwise a rotating third for functions with many forms *)
Use(f, n, k, i) == Deep \/ i > 12 \/ Len(f.forms) < 4 \/ (i + n + k) % 3 = 0
(* which operand is the plain scalar of this form, whose storage is not a tensor *)
ScalarPos(form) == IF form \in {4, 5, 9} THEN 2 ELSE IF form \in {6, 7} THEN 1 ELSE 0
Arg(c, f, k, sh, form) ==
  LET np == Len(f.pools[k])
  IN [sh |-> sh, pool |-> f.pools[k], pad |-> IF k = ScalarPos(form) THEN 0 ELSE (IF RP(c, 7 * k, 40) THEN 1 + RN(c, 7 * k + 1, 4) ELSE 0),
      v |-> [i \in 1..Size(sh) |-> IF RP(c, 100 * k + 2 * i, 70) THEN RN(c, 100 * k + 2 * i + 1, MinI(np, 4)) ELSE RN(c, 100 * k + 2 * i + 1, np)]]
VARIABLES n, pos
Init == n \in 1..N /\ pos = 0
Row(id, f, k) == [id |-> id, k |-> k, op |-> f.op, ty |-> f.ty]
Table == /\ pos = 0 /\ pos' = 1 /\ n' = n
         /\ EmitRow(Row(n, F[n], "table") @@ [args |-> [k \in DOMAIN F[n].pools |-> [pool |-> F[n].pools[k]]]])
Id(k, i, r) == 1000000 + n * 1000 + k * 100 + i + r * 900000
(* both operands the same tensor *)
CanAlias(f, S, form) == Len(S) = 2 /\ form \in 0..3 /\ S[1] = S[2] /\ f.pools[1] = f.pools[2] /\ f.ty \notin {"sym", "mixed"}
OneCase(f, form, S, c, id) ==
  LET al == CanAlias(f, S, form) /\ RP(c, 991, 35)
      args == [a \in DOMAIN S |-> Arg(c, f, IF al THEN 1 ELSE a, S[a], form)]
  IN EmitRow(Row(id, f, "case") @@ [tab |-> n, form |-> form, args |-> args, keep |-> RN(c, 990, 3), alias |-> IF al THEN 1 ELSE 0])
FormCases(f, k, S) == \A i \in DOMAIN S : \A r \in 1..Rep :
  Use(f, n, k, i) => OneCase(f, f.forms[k], S[i], <<Seed, n, k, i, r>>, Id(k, i, r))
(* every combination of pool values at once *)
Whole(f) ==
  LET p == Len(f.pools[1])  q == Len(f.pools[Len(f.pools)])
      args == IF Len(f.pools) = 1 THEN << [sh |-> <<p>>, pool |-> f.pools[1], pad |-> 3, v |-> [j \in 1..p |-> j - 1]] >>
              ELSE << [sh |-> <<p, q>>, pool |-> f.pools[1], pad |-> 0, v |-> [j \in 1..(p * q) |-> (j - 1) \div q]],
                      [sh |-> <<q>>, pool |-> f.pools[2], pad |-> 2, v |-> [j \in 1..q |-> j - 1]] >>
  IN Len(f.pools) <= 2 => EmitRow(Row(1000000 + n * 1000 + 990, f, "case") @@ [tab |-> n, form |-> 0, args |-> args, keep |-> 0, alias |-> 0])
Cases == /\ pos = 1 /\ pos' = 2 /\ n' = n
         /\ \A k \in DOMAIN F[n].forms : FormCases(F[n], k, Shapes(F[n], F[n].forms[k]))
         /\ Whole(F[n])
Next == Table \/ Cases
=============================================================================
