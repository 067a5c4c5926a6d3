------------------------------ MODULE ReduceGen ------------------------------
EXTENDS ReduceOps, Rnd, IOUtils, Emit
Deep == IOEnv.TIER = "thorough"
Seed == atoi(IOEnv.VERIF_SEED) % 40000
Unit == IOEnv.FOCUS = "C12"
Rep == IF IOEnv.FOCUS = "C03" THEN 1 ELSE IF Unit THEN (IF Deep THEN 200 ELSE 40) ELSE IF Deep THEN 40 ELSE 5
(* [op, ty, axis?] *)
Ops == IF Unit THEN << <<"unit", "f32", FALSE>>, <<"unit", "f64", FALSE>> >>
       ELSE << <<"sum", "f32", TRUE>>, <<"sum", "f64", TRUE>>, <<"sum", "i32", TRUE>>, <<"sum", "i64", TRUE>>,
               <<"product", "f32", TRUE>>, <<"product", "f64", TRUE>>, <<"product", "i32", TRUE>>, <<"product", "i64", TRUE>>,
               <<"min", "f32", TRUE>>, <<"min", "f64", TRUE>>, <<"max", "f32", TRUE>>, <<"max", "f64", TRUE>>,
               <<"mean", "f32", TRUE>>, <<"std", "f32", TRUE>>, <<"variance", "f32", TRUE>>, <<"hypot", "f32", FALSE>>, <<"hypot", "f64", FALSE>> >>
Shapes == << <<1>>, <<2>>, <<4>>, <<9>>, <<36>>, <<1, 1>>, <<2, 3>>, <<3, 2>>, <<1, 5>>, <<5, 1>>, <<4, 4>>, <<3, 2, 2>>, <<2, 3, 4>>, <<2, 1, 3, 2>>, <<2, 2, 2, 2, 2>>, <<700>>, <<2, 300>> >>
          \o (IF Deep THEN << <<200>>, <<7, 11>>, <<11, 7>>, <<3, 1, 2, 2, 1, 2>>, <<1, 1, 1, 5>>, <<5, 4, 3>> >> ELSE <<>>)
(* the tensor repeated along the reduced axis: long groups *)
Reps == IF Deep THEN <<60, 300, 5000, 17000, 33000, 70000>> ELSE <<60, 17000, 70000>>
VARIABLES o, s, pos
Init == o \in DOMAIN Ops /\ s \in DOMAIN Shapes /\ pos = 0
(* axis choices: 100 whole, 101 whole through the axis form, otherwise the axis *)
AxesOf(sh, ax) == IF ax THEN <<100, 101>> \o [k \in 1..(2 * Len(sh)) |-> k - 1 - Len(sh)] ELSE <<100>>
Vals(c, op, ty, n) ==
  CASE op = "product" -> [i \in 1..n |-> IF RP(c, 3 * i, 60) \/ (n > 40 /\ (i % 60) # 7) THEN (IF RP(c, 3 * i + 1, 50) THEN 1 ELSE -1) ELSE IF n > 12 THEN RS(c, 3 * i + 2, <<2, -2, 1>>) ELSE RN(c, 3 * i + 2, 7) - 3]
    [] op = "unit" -> [i \in 1..n |-> IF i = 1 + RN(c, 2, n) THEN RN(c, 3, 40) - 60 ELSE RN(c, 3 * i, 80) - 20]
    [] RP(c, 900, 15) -> [i \in 1..n |-> RN(c, 901, 60) - 30]                    \* constant
    [] RP(c, 902, 20) -> [i \in 1..n |-> -(RN(c, 3 * i, 36) + 1)]                \* all negative
    [] RP(c, 903, 20) -> [i \in 1..n |-> RN(c, 3 * i, 36) + 1]
    [] OTHER -> [i \in 1..n |-> RN(c, 3 * i, 73) - 36]
Off(c, op, ty) == IF op \in {"product", "hypot"} \/ ty \in {"i32", "i64"} THEN 0 ELSE IF RP(c, 950, 25) THEN RS(c, 951, <<100, -100, 4096>>) ELSE 0
(* some cases hold infinities *)
Special(op, ty, rep, c) == rep = 1 /\ op \in {"sum", "mean", "min", "max", "hypot"} /\ ty \in {"f32", "f64"} /\ RP(c, 980, 20)
WithInf(c, v) == LET w == RS(c, 981, <<10, 40, 100>>)  k == RN(c, 982, 3) IN
                 [i \in DOMAIN v |-> IF i = 1 + RN(c, 983, Len(v)) \/ RP(c, 5000 + 2 * i, w) THEN (CASE k = 0 -> PInf [] k = 1 -> NInf [] OTHER -> IF RP(c, 5001 + 2 * i, 50) THEN PInf ELSE NInf) ELSE v[i]]
Row(op, ty, sh, ax, c, id, rep) ==
  \E v \in {Vals(c, op, ty, Size(sh))} : \E sp \in {Special(op, ty, rep, c)} :
  EmitRow([id |-> id, op |-> op, ty |-> ty, sh |-> sh, ax |-> ax, off |-> IF rep > 1 \/ sp THEN 0 ELSE Off(c, op, ty), q |-> IF sp THEN WithInf(c, v) ELSE v, rep |-> rep, sp |-> sp,
           sc |-> IF RP(c, 970, 30) THEN RS(c, 971, <<-40, -20, -7, 7, 20, 40>>) ELSE 0,
           pad |-> IF RP(c, 960, 40) THEN 1 + RN(c, 961, 5) ELSE 0])
Next == /\ pos = 0 /\ pos' = 1 /\ UNCHANGED <<o, s>>
        /\ \A k \in DOMAIN AxesOf(Shapes[s], Ops[o][3]) : \A r \in 1..Rep :
             ((Ops[o][1] = "unit" => Size(Shapes[s]) > 1) =>
               Row(Ops[o][1], Ops[o][2], Shapes[s], AxesOf(Shapes[s], Ops[o][3])[k], <<Seed, o, s, k, r>>, ((o * 100 + s) * 100 + k) * 100 + r, 1))
        /\ (Ops[o][1] # "product" /\ Size(Shapes[s]) <= 8 /\ (Unit => Size(Shapes[s]) > 1)) =>
             \A k \in DOMAIN AxesOf(Shapes[s], Ops[o][3]) : \A r \in DOMAIN Reps :
               Row(Ops[o][1], Ops[o][2], Shapes[s], AxesOf(Shapes[s], Ops[o][3])[k], <<Seed, o, s, k, 50 + r>>, ((o * 100 + s) * 100 + k) * 100 + 50 + r, Reps[r])
=============================================================================
