------------------------------ MODULE ShareGen ------------------------------
(* Pseudo-random behaviours of Share: step by step in one order ("sched"), or each thread's own operations to be run freely ("free"). *)
EXTENDS Share, Rnd, IOUtils, Emit
Deep == IOEnv.TIER = "thorough"
Key == atoi(IOEnv.VERIF_SEED) % 40000
NSched == IF Deep THEN 3000 ELSE 250
NFree == IF Deep THEN 1500 ELSE 160
VARIABLES c, st, ini, hist, len
vars == <<c, st, ini, hist, len>>
NT(x) == 2 + RN(x, 1, 5)
Lens(x) == [b \in 1..(1 + RN(x, 2, 3)) |-> IF RP(x, 5 + b, 20) THEN 1 ELSE 1 + RN(x, 10 + b, 9)]
Init == /\ c \in {<<Key, i, 1>> : i \in 1..NSched} \cup {<<Key, i, 2>> : i \in 1..NFree}
        /\ hist = <<>>
        /\ len = Lens(c)
        (* every thread starts with windows on some buffers; buffer 1 is held by all *)
        /\ ini = [t \in 1..NT(c) |-> [s \in 1..NSlot |-> IF s = 1 THEN <<1, 0, len[1]>> ELSE IF s <= Len(len) /\ RP(c, 100 + 10 * t + s, 60) THEN <<s, 0, len[s]>> ELSE Nil]]
        /\ st = ini
Free == c[3] = 2
NStep == IF Free THEN NT(c) * (2 + RN(c, 3, 8)) ELSE 20 + RN(c, 4, 20)
Kinds == <<"clone", "clone", "sub", "flat", "reshape", "read", "map", "drop", "drop", "same", "move", "churn", "drop">>
Try(k) ==
  LET x == c \o <<Len(hist), k>>
      o == IF ~Free /\ RP(x, 1, 12) THEN "give" ELSE RS(x, 2, Kinds)
      t == 1 + RN(x, 3, NT(c))
      s == 1 + RN(x, 4, NSlot)
      w == st[t][s]
      a == IF w[3] > 0 THEN RN(x, 5, w[3]) ELSE 0
  IN [t |-> t, o |-> o, s |-> s, d |-> 1 + RN(x, 6, NSlot), a |-> a, n |-> IF w[3] > a THEN 1 + RN(x, 7, w[3] - a) ELSE 1,
      u |-> 1 + RN(x, 8, NT(c))]
Ok(e) == Enabled(st[e.t], e) /\ (e.o = "give" => st[e.u][e.d] = Nil /\ e.u # e.t)
RECURSIVE First_(_)
First_(k) == IF k > 12 THEN [t |-> 0, o |-> "", s |-> 1, d |-> 1, a |-> 0, n |-> 1, u |-> 0] ELSE IF Ok(Try(k)) THEN Try(k) ELSE First_(k + 1)
Row == [id |-> c[3] * 100000 + c[2], k |-> IF Free THEN "free" ELSE "sched", len |-> len, ini |-> ini, steps |-> hist,
        rep |-> IF Free THEN (IF Deep THEN 40 ELSE 25) ELSE 1, churn |-> IF Free THEN (IF RP(c, 40, 30) THEN 400 ELSE 20) ELSE 3]
Next == \/ /\ Len(hist) < NStep /\ \E e \in {First_(1)} :
              /\ hist' = Append(hist, e)
              /\ st' = IF e.t = 0 THEN st ELSE LET s1 == [st EXCEPT ![e.t] = After(@, e)] IN
                       IF e.o = "give" THEN [s1 EXCEPT ![e.u][e.d] = st[e.t][e.s]] ELSE s1
           /\ UNCHANGED <<c, ini, len>>
        \/ Len(hist) = NStep /\ EmitRow(Row) /\ hist' = Append(hist, "emitted") /\ UNCHANGED <<c, st, ini, len>>
WindowsInside == \A t \in DOMAIN st : \A s \in 1..NSlot : st[t][s] = Nil \/ st[t][s][2] + st[t][s][3] <= len[st[t][s][1]]
=============================================================================
