------------------------------ MODULE SeedGen ------------------------------
(***************************************************************************)
(* Behaviours of Seed.tla as schedules: every interleaving of a few        *)
(* threads' loads and swaps with reseedings (exhaustive, up to the order   *)
(* in which threads start), pseudo-random ones with more threads, free     *)
(* races, and sequential histories in which threads draw again after       *)
(* others, and after reseedings.                                           *)
(***************************************************************************)
EXTENDS Seed, Sequences, SeedVals, Rnd, IOUtils, Emit, TLC
Deep == IOEnv.TIER = "thorough"
Key == atoi(IOEnv.VERIF_SEED) % 40000
Lims(c, k) == [j \in 1..6 |-> IF j < 6 THEN RN(c, k * 10 + j, 4096) ELSE RN(c, k * 10 + j, 15) + 1]
SeedVal(c, s) == IF s = 9 THEN <<>> ELSE IF s > 3 THEN <<RN(c, 77 + s, 4095) + 1>> ELSE Lims(c, s)
VARIABLES mode, hist, n
gv == <<vars, mode, hist, n>>

(* mode: <<"all", threads, sets>>, <<"rnd", threads, key>>, <<"free", key>>, <<"seq", key>> *)
All == IF Deep THEN {<<"all", 2, 2>>, <<"all", 3, 1>>} ELSE {<<"all", 2, 2>>, <<"all", 3, 0>>}
NRnd == IF Deep THEN 3000 ELSE 150
NFree == IF Deep THEN 4000 ELSE 300
(* special seeds, three at a time, each claimed by two threads in turn *)
Specs == SpecialSeeds64
NSpec == (Len(Specs) + 2) \div 3
NSeq == IF Deep THEN 1500 ELSE 120
(* one thread after the other, many of them *)
Chains == IF Deep THEN <<40, 300, 700, 5000, 66000>> ELSE <<40, 300, 700>>
Me(t) == t <= (IF mode[1] = "all" THEN mode[2] ELSE n)
NSets == IF mode[1] = "all" THEN mode[3] ELSE 2
Init == /\ Init_ /\ hist = <<>>
        /\ mode \in All \cup {<<"rnd", i>> : i \in 1..NRnd} \cup {<<"free", i>> : i \in 1..NFree} \cup {<<"seq", i>> : i \in 1..NSeq} \cup {<<"spec", i>> : i \in 1..NSpec} \cup {<<"chain", i>> : i \in 1..Len(Chains)}
        /\ n = IF mode[1] = "rnd" THEN 3 + RN(<<Key, mode[2]>>, 1, 5) ELSE 0
Running == mode[1] \in {"all", "rnd"}
Fin == \A t \in Threads : Me(t) => pc[t] = "done"
Ordered(t) == \A u \in Threads : u < t => \E i \in 1..Len(hist) : hist[i][1] = u      \* threads start in order: the others are renamings
Can(a) == IF a[1] = 0 THEN epoch < NSets ELSE Me(a[1]) /\ Ordered(a[1]) /\ pc[a[1]] = (IF a[2] = 1 THEN "start" ELSE "loaded")
Acts == {<<0, s>> : s \in Seeds} \cup (Threads \X {1, 2})
Enabled_ == {a \in Acts : Can(a)}
Pick == LET E == SetToSeq({a \in Enabled_ : a[1] # 0 \/ RP(<<Key, mode[2]>>, 50 + Len(hist), 15)}) IN
        IF E = <<>> THEN SetToSeq(Enabled_)[1] ELSE RS(<<Key, mode[2]>>, 100 + Len(hist), E)
Do(a) == /\ hist' = Append(hist, a)
         /\ IF a[1] = 0 THEN Set_(a[2]) ELSE IF a[2] = 1 THEN Load(a[1]) ELSE Swap(a[1])
         /\ UNCHANGED <<mode, n>>
Finish(row) == EmitRow(row) /\ mode' = <<"emitted", mode>> /\ UNCHANGED <<vars, hist, n>>
(* the label of a reseeding is a seed of the case: 1 the initial one again, 2 another, 9 entropy *)
Sched == [id |-> <<Len(mode), hist, n>>, k |-> "sched", s0 |-> SeedVal(<<Key, Len(hist)>>, 1), nt |-> IF mode[1] = "all" THEN mode[2] ELSE n, later |-> 2,
          steps |-> [i \in 1..Len(hist) |-> IF hist[i][1] = 0 THEN [t |-> 0, p |-> 0, s |-> SeedVal(<<Key, Len(hist)>>, hist[i][2])]
                                            ELSE [t |-> hist[i][1], p |-> hist[i][2], s |-> <<>>]]]
Free(i) == LET c == <<Key, i, 2>> IN
   [id |-> <<4, i>>, k |-> "free", s0 |-> SeedVal(c, IF RP(c, 1, 10) THEN 9 ELSE IF RP(c, 2, 30) THEN 4 ELSE 1), nt |-> 2 + RN(c, 3, 7), later |-> 1 + RN(c, 4, 2), skip |-> IF RP(c, 6, 30) THEN RN(c, 7, IF Deep THEN 100000 ELSE 3000) ELSE 0,
    steps |-> IF RP(c, 5, 30) THEN <<[t |-> 0, p |-> 0, s |-> SeedVal(c, 2)]>> ELSE <<>>]
Seq_(i) == LET c == <<Key, i, 3>> IN
   [id |-> <<5, i>>, k |-> "seq", s0 |-> SeedVal(c, IF RP(c, 1, 10) THEN 9 ELSE 1), nt |-> 6, later |-> 0,
    steps |-> [j \in 1..16 |-> IF RP(c, 100 + j, 15) THEN [t |-> 0, p |-> 0, s |-> SeedVal(c, RS(c, 200 + j, <<1, 2, 3, 4, 5, 9>>))]
                               ELSE [t |-> 1 + RN(c, 300 + j, 6), p |-> 1 + RN(c, 400 + j, 3), s |-> <<>>]]]
Spec_(i) == LET S(k) == Specs[(((3 * (i - 1)) + k - 1) % Len(Specs)) + 1]  T(t) == [t |-> t, p |-> 2, s |-> <<>>]  R(k) == [t |-> 0, p |-> 0, s |-> S(k)] IN
   [id |-> <<6, i>>, k |-> "seq", s0 |-> S(1), nt |-> 6, later |-> 0, steps |-> <<T(1), T(2), R(2), T(3), T(4), T(1), R(3), T(5), T(6), T(3)>>]
Chain(i) == [id |-> <<7, i>>, k |-> "chain", s0 |-> SeedVal(<<Key, i, 4>>, 1), nt |-> Chains[i], later |-> 2, steps |-> <<>>]
Next == \/ mode[1] = "chain" /\ Finish(Chain(mode[2]))
        \/ Running /\ ~Fin /\ mode[1] = "all" /\ \E a \in Enabled_ : Do(a)
        \/ Running /\ ~Fin /\ mode[1] = "rnd" /\ \E a \in {Pick} : Do(a)
        \/ Running /\ Fin /\ Finish(Sched)
        \/ mode[1] = "free" /\ Finish(Free(mode[2]))
        \/ mode[1] = "spec" /\ Finish(Spec_(mode[2]))
        \/ mode[1] = "seq" /\ Finish(Seq_(mode[2]))
=============================================================================
