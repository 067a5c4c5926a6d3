------------------------------- MODULE OptGen -------------------------------
EXTENDS OptOps, Rnd, IOUtils, Emit
Deep == IOEnv.TIER = "thorough"
Key == atoi(IOEnv.VERIF_SEED) % 40000
NS == IF Deep THEN 300 ELSE 140
NH == IF Deep THEN 60 ELSE 20
Types == <<"usize", "usize", "i64", "String", "bool", "f64", "u64", "Vec", "Enum", "u8", "Path">>
Names == <<"name", "value", "size", "fft_length", "opt", "arg", "x", "y", "items", "field", "r#type", "label", "some", "width", "state", "n">>
VARIABLES n, pos
Init == n \in 1..NS /\ pos = 0
(* bool values are 0 or 1; other values below 100 *)
Val(c, k, ty) == IF ty = "bool" THEN RN(c, k, 2) ELSE RN(c, k, 100)
Fields(c) ==
  LET k == IF RP(c, 1, 6) THEN 0 ELSE IF RP(c, 1000, 15) THEN 9 + RN(c, 1001, 8) ELSE 1 + RN(c, 2, 6)
      custom == RP(c, 3, 50)
      off == RN(c, 4, 16)
      same == RP(c, 5, 25)                       \* all fields of one type: mixed-up fields are not seen by the compiler
      opt0 == RP(c, 6, 50)
  IN [i \in 1..k |->
       LET ty == IF same THEN RS(c, 7, Types) ELSE RS(c, 10 * i + 100, Types)
           o == IF same THEN opt0 ELSE RP(c, 10 * i + 101, 55)
       IN [name |-> Names[((off + i * 5) % 16) + 1], ty |-> ty, opt |-> o,
           d |-> IF ~custom THEN (IF o THEN -1 ELSE 0) ELSE IF o /\ RP(c, 10 * i + 102, 50) THEN -1 ELSE Val(c, 10 * i + 103, ty)]]
Ops(c, fs) == [j \in 1..(IF fs = <<>> THEN 0 ELSE IF RP(c, 1002, 10) THEN 12 + RN(c, 1003, 40) ELSE RN(c, 1, 10)) |->
       LET f == IF j > 1 /\ RP(c, 4 * j, 10) THEN 0 ELSE 1 + RN(c, 4 * j + 1, Len(fs)) IN
       [f |-> f, v |-> IF f = 0 THEN 0 ELSE Val(c, 4 * j + 2, fs[f].ty)]]
Case(i) ==
  LET c == <<Key, i>>  fs == Fields(c) IN
  [id |-> i, fs |-> fs, custom |-> RP(c, 3, 50), vis |-> RN(c, 8, 3), style |-> RN(c, 9, 3),
   hs |-> [h \in 1..NH |-> [nil |-> RP(<<Key, i, h>>, 1000, 70), ops |-> Ops(<<Key, i, h>>, fs)]]]
Next == pos = 0 /\ pos' = 1 /\ n' = n /\ EmitRow(Case(n))
=============================================================================
