------------------------------ MODULE ShapeGen ------------------------------
(* Generates shape histories: every edit and question at every position of every bounded shape, then random edit chains. *)
EXTENDS ShapeOps, Rnd, IOUtils, Emit
Deep == IOEnv.TIER = "thorough"
Seed == atoi(IOEnv.VERIF_SEED) % 40000
NHist == IF Deep THEN 20000 ELSE 1500
NStep == IF Deep THEN 40 ELSE 16

Flat(s) == FoldLeft(LAMBDA a, b : a \o b, <<>>, s)
RECURSIVE Tuples(_, _)
Tuples(n, dims) == IF n = 0 THEN << <<>> >>
  ELSE LET r == Tuples(n - 1, dims) IN Flat([i \in 1..Len(dims) |-> [j \in 1..Len(r) |-> <<dims[i]>> \o r[j]]])
Base == Tuples(0, <<1>>) \o Tuples(1, <<0, 1, 2, 3, 7>>) \o Tuples(2, <<0, 1, 2, 3>>) \o Tuples(3, <<1, 2, 3>>)
        \o (IF Deep THEN Tuples(4, <<1, 2, 3>>) \o Tuples(5, <<1, 2, 3>>) \o Tuples(6, <<1, 2, 3>>)
            ELSE Tuples(4, <<1, 2>>) \o Tuples(5, <<1, 2>>) \o Tuples(6, <<1, 3>>)
                 \o << <<2, 3, 4, 5>>, <<5, 4, 3, 2>>, <<2, 3, 4, 5, 6>>, <<6, 5, 4, 3, 2>>, <<2, 3, 4, 5, 6, 7>>, <<7, 1, 5, 1, 3, 2>>, <<1, 4, 1, 1, 4, 1>> >>)
        \o << <<65536, 65536>>, <<100000, 3, 100000>>, <<2000000000>>, <<70000, 70000, 2>>, <<2, 2000000000, 3, 1000>> >>
E1(op) == [op |-> op]
EI(op, i) == [op |-> op, i |-> i]
EIN(op, i, n) == [op |-> op, i |-> i, n |-> n]
EN(op, n) == [op |-> op, n |-> n]
ES(op, s) == [op |-> op, s |-> s]
Pos(r) == [k \in 1..(r + 2) |-> k - 1]
Partners(d) == LET r == Len(d) IN
  [k \in 1..(r + 1) |-> SubSeq(d, k, r)]
  \o (IF r < MaxRank THEN << <<2>> \o d, <<1>> \o d >> ELSE <<>>)
  \o (IF r < MaxRank - 1 THEN << <<3, 2>> \o d >> ELSE <<>>)
  \o [k \in 1..r |-> [d EXCEPT ![k] = @ + 1]]
  \o (IF r > 0 THEN << Append(Tail(d), d[r] + 1), <<d[1]>>, Reverse(d) >> ELSE << <<4>> >>)
  \o (IF r > 0 /\ r < MaxRank THEN << Append(d, 1), Append(d, 2) >> ELSE <<>>)
AllP(d, Ps) ==
  LET r == Len(d) IN
  << E1("squeeze"), E1("pop"), E1("reduce") >>
  \o << EN("with_cols", 5), EN("with_rows", 5), EN("push", 4), EN("vector", 3), EN("vector", 0) >>
  \o << [op |-> "with_cols", n |-> 5, hi |-> 1], [op |-> "with_rows", n |-> 5, hi |-> 1], [op |-> "push", n |-> 4, hi |-> 1],
        [op |-> "vector", n |-> 3, hi |-> 1], [op |-> "insert", i |-> 0, n |-> 3, hi |-> 2], [op |-> "rinsert", i |-> 0, n |-> 3, hi |-> 1],
        [op |-> "replace", i |-> 0, n |-> 3, hi |-> 1], [op |-> "rreplace", i |-> 0, n |-> 0, hi |-> 1], [op |-> "with_dim", i |-> 0, n |-> 3, hi |-> 3] >>
  \o Flat([k \in 1..(r + 2) |-> Flat([o \in 1..5 |->
         << EIN(<<"with_dim", "replace", "rreplace", "insert", "rinsert">>[o], k - 1, 4) >>])])
  \o Flat([k \in 1..(r + 2) |-> << EI("remove", k - 1), EI("rremove", k - 1) >>])
  \o [k \in 1..(IF 0 \in Range(d) THEN 0 ELSE 2 * r + 5) |-> EI("expand_dims", k - r - 3)]
  \o [k \in 1..(2 * r) |-> EI("squeeze_axis", k - 1 - r)]
  \o << ES("append", <<>>), ES("append", <<4>>), ES("append", <<4, 5>>), ES("append", <<3, 4, 5>>) >>
  \o Flat([k \in 1..Len(Ps) |-> << ES("broadcast_to", Ps[k]), ES("broadcast", Ps[k]), ES("check_broadcast", Ps[k]) >>])
  \o Flat([k \in 1..Len(Ps) |-> Flat([a \in 1..3 |-> Flat([b \in 1..3 |->
         IF a - 1 <= r /\ b - 1 <= Len(Ps[k]) THEN << [op |-> "broadcast_min", i |-> a - 1, n |-> b - 1, s |-> Ps[k]] >> ELSE <<>>])])])
  \o [k \in 1..(2 * r) |-> EI("axis_from_rank", k - 1 - r)]
  \o << [op |-> "axis_reduce", ax |-> "none", i |-> 0] >> \o [k \in 1..(IF 0 \in Range(d) THEN 0 ELSE 2 * r) |-> [op |-> "axis_reduce", ax |-> "axis", i |-> k - 1 - r]]
  \o (IF r > 1 /\ 0 \notin Range(d)
      THEN << [op |-> "axis_reduce_row", ax |-> "none", i |-> 0, n |-> 4] >>
           \o Flat([k \in 1..(r - 1) |-> << [op |-> "axis_reduce_row", ax |-> "axis", i |-> k - 1, n |-> 4], [op |-> "axis_reduce_row", ax |-> "axis", i |-> k - 1 - r, n |-> 3] >>])
      ELSE <<>>)

All(d) == AllP(d, TLCEval(Partners(d)))

VARIABLES hid, pos, d, ev
vars == <<hid, pos, d, ev>>
Init == hid \in (1..Len(Base)) \cup (100001..(100000 + NHist)) /\ pos = 0 /\ ev = <<>> /\ d = <<>>
Start(sh, f) == [op |-> "set", s |-> sh, form |-> f]
Emit(id, es) == EmitRow([id |-> id, ev |-> es])
CaseStep ==      \* from every base shape, each edit followed by a return to the base shape
  /\ hid <= 100000 /\ pos = 0
  /\ \E b \in {Base[hid]} : \E A \in {All(b)} :
     Emit(hid, << Start(b, 0), Start(b, 1), Start(b, 2), Start(b, 3) >>
               \o Flat([k \in 1..Len(A) |-> << A[k] >> \o (IF A[k].op \in AskOps THEN <<>> ELSE << Start(b, k % 4) @@ [quiet |-> TRUE] >>)]))
  /\ pos' = 1 /\ UNCHANGED <<hid, d, ev>>
c == <<Seed, hid, pos>>
Pick == IF pos = 0 \/ RP(c, 1, 5) THEN Start(RS(c, 2, Base), RN(c, 3, 4))
        ELSE LET A == All(d) IN RS(c, 4, A)
WalkStep == /\ hid > 100000 /\ pos < NStep
            /\ \E e \in {Pick} : d' = Edit(e, d).d /\ ev' = Append(ev, e)
            /\ pos' = pos + 1 /\ UNCHANGED hid
WalkEnd == /\ hid > 100000 /\ pos = NStep /\ Emit(hid, ev) /\ pos' = pos + 1 /\ ev' = <<>> /\ d' = <<>> /\ UNCHANGED hid
Next == CaseStep \/ WalkStep \/ WalkEnd
(* no edit leads outside the shapes *)
Valid == Len(d) <= MaxRank /\ \A k \in DOMAIN d : d[k] >= 0
=============================================================================
