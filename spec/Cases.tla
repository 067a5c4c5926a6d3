------------------------------- MODULE Cases -------------------------------
(***************************************************************************)
(* Bounded-exhaustive single-operation cases.  A case is                   *)
(*    [srcs |-> shapes of the sources, e |-> request without registers]    *)
(* Realise turns it into a history in which every source is produced in    *)
(* one of several ways (fresh, window of a larger tensor, view of a view,  *)
(* reshaped, cloned with the original kept) so that operations are applied *)
(* to tensors of every provenance.                                         *)
(***************************************************************************)
EXTENDS Machine, Rnd, IOUtils

Tier == IF "TIER" \in DOMAIN IOEnv THEN IOEnv.TIER ELSE "quick"
Deep == Tier = "thorough"
Seed == IF "VERIF_SEED" \in DOMAIN IOEnv THEN atoi(IOEnv.VERIF_SEED) % 40000 ELSE 1

Single == ~("FOCUS" \in DOMAIN IOEnv /\ IOEnv.FOCUS \in {"C01", "C03"})      \* one family on its own: more shapes

(* all sequences of length n over the sequence dims *)
RECURSIVE Tuples(_, _)
Tuples(n, dims) ==
  IF n = 0 THEN << <<>> >>
  ELSE LET r == Tuples(n - 1, dims)
       IN Flatten_([i \in 1..Len(dims) |-> [j \in 1..Len(r) |-> <<dims[i]>> \o r[j]]])
Upto(n) == [i \in 1..n |-> i]
From0(n) == [i \in 1..n |-> i - 1]
Each(s, F(_)) == [i \in 1..Len(s) |-> F(s[i])]
FlatEach(s, F(_)) == Flatten_([i \in 1..Len(s) |-> F(s[i])])
When(b, s) == IF b THEN s ELSE <<>>

Shapes1 == << <<1>>, <<2>>, <<3>>, <<4>>, <<5>>, <<7>> >>
Shapes2 == Tuples(2, <<1, 2, 3>>) \o << <<4, 5>>, <<5, 2>>, <<2, 6>> >>
Shapes3 == Tuples(3, IF Deep THEN <<1, 2, 3, 4>> ELSE <<1, 2, 3>>)
Shapes4 == IF Deep THEN Tuples(4, <<1, 2, 3>>)
           ELSE << <<2,1,3,2>>, <<1,2,2,3>>, <<3,2,1,2>>, <<2,2,2,2>>, <<2,3,2,2>>, <<2,3,4,5>> >>
                \o When(Single, << <<1,1,1,1>>, <<3,1,1,1>>, <<1,3,1,1>>, <<1,1,3,1>>, <<1,1,1,3>>, <<2,3,1,1>>, <<1,1,2,3>>, <<3,2,2,1>>, <<1,4,2,3>>, <<4,3,2,1>> >>)
Shapes56 == << <<2,1,2,1,3>>, <<1,2,3,1,2>>, <<2,2,2,2,2>>, <<1,2,1,2,1,2>>, <<2,1,2,3,1,2>>, <<2,2,1,2,2,2>> >>
            \o (IF Deep THEN Tuples(5, <<1, 2>>) \o Tuples(6, <<1, 2>>)
                ELSE When(Single, << <<1,1,1,1,1>>, <<2,3,2,1,1>>, <<1,1,2,3,2>>, <<3,1,1,1,2>>, <<2,1,1,3,1>>, <<1,3,2,2,3>>, <<3,2,1,3,2>>,
                                     <<1,1,1,1,1,1>>, <<2,2,3,1,2,1>>, <<1,1,2,2,1,3>>, <<3,1,2,1,1,1>>, <<1,1,1,1,2,3>>, <<2,3,1,2,1,2>>, <<1,2,2,3,2,1>> >>))
Large == << <<17>>, <<33>>, <<64>>, <<100>>, <<16, 9>>, <<3, 20>>, <<20, 3>>, <<5, 6, 7>>, <<2, 35>>, <<37, 2>>, <<257>>, <<130, 3>>, <<3, 130>> >>
         \o (IF Deep THEN << <<65, 4>>, <<4, 65>>, <<9, 8, 7>>, <<3, 4, 5, 6>>, <<2, 300>>, <<300, 2>> >> ELSE <<>>)
ShapesAll == Shapes1 \o Shapes2 \o Shapes3 \o Shapes4 \o Shapes56 \o Large       \* rank >= 1
Shapes0 == << <<>> >> \o ShapesAll
Small == Shapes1 \o Shapes2 \o Shapes3 \o Shapes4 \o Shapes56

C(srcs, e) == [srcs |-> srcs, e |-> e]
U(srcs, e) == [srcs |-> srcs, e |-> e, untracked |-> TRUE]   \* empty results: which storage they keep alive is open
(* every axis spelled from either end; ax: which spelling the harness uses *)
AxesOf(r) == Flatten_([k \in 1..r |-> << <<"axis", k - 1>>, <<"into", k - 1 - r>> >>])
AxOpt(r) == << <<"none", 0>> >> \o AxesOf(r) \o << <<"opt", r - 1>> >>

Seqv(base, n) == [i \in 1..n |-> base + i]

(***************************************************************************)
(* C04 views                                                               *)
(***************************************************************************)
ReShapes(sh) ==
  LET n == Size(sh) IN
  << <<n>>, <<1, n>>, <<n, 1>>, <<1, n, 1>>, <<1, 1, 1, n, 1>>, <<1, 1, n, 1, 1, 1>>, Reverse(sh), <<n + 1>>, <<1, 1, 1, 1, 1, 1, n>> >>
  \o When(n % 2 = 0, << <<2, n \div 2>>, <<n \div 2, 1, 2>> >>)
  \o When(n % 3 = 0, << <<n \div 3, 3>> >>)
  \o When(n > 1, << <<n - 1>> >>) \o When(n = 1, << <<>> >>)
Units == Flatten_(Each(<<4, 5, 6>>, LAMBDA n : Tuples(n, <<1, 2>>)))      \* every pattern of unit dimensions
CasesC04(z) ==
  FlatEach(When(~Deep /\ Single, Units), LAMBDA sh :
     << C(<<sh>>, [op |-> "squeeze"]) >>
     \o Each([k \in 1..Len(sh) |-> k - 1], LAMBDA i : C(<<sh>>, [op |-> "squeeze_axis", ax |-> "axis", axis |-> i]))
     \o When(Len(sh) < 6, Each([k \in 1..(Len(sh) + 1) |-> k - 1], LAMBDA i : C(<<sh>>, [op |-> "expand_dims", ax |-> "axis", axis |-> i]))))
  \o FlatEach(Shapes0, LAMBDA sh :
     LET n == Size(sh) IN
     Each(ReShapes(sh), LAMBDA q : C(<<sh>>, [op |-> "reshape", sh |-> q]))
     \o << C(<<sh>>, [op |-> "flatten"]), C(<<sh>>, [op |-> "squeeze"]), C(<<sh>>, [op |-> "clone", form |-> 0]),
           C(<<sh>>, [op |-> "clone", form |-> 1]) >>
     \o When(sh # <<>>,
          Each(AxesOf(Len(sh)), LAMBDA a : C(<<sh>>, [op |-> "squeeze_axis", ax |-> a[1], axis |-> a[2]]))
          \o LET d == sh[1]
                 ps == IF d <= 5 THEN Flatten_([o \in 1..(d + 1) |-> [k \in 1..(d + 2 - o) |-> <<o - 1, k>>]])
                       ELSE << <<0, d>>, <<0, 1>>, <<d - 1, 1>>, <<2, d - 4>>, <<1, d>>, <<d, 1>>, <<d + 3, 1>>, <<3, 3>> >>
             IN Each(ps, LAMBDA p : C(<<sh>>, [op |-> "subslice", off |-> p[1], len |-> p[2]])))
     \o (LET r == Len(sh) + 1
         IN Each(Flatten_([k \in 1..r |-> << <<"axis", k - 1>>, <<"into", k - 1 - r>> >>])
                   \o << <<"axis", r>>, <<"into", -(r + 1)>> >>,
                 LAMBDA a : C(<<sh>>, [op |-> "expand_dims", ax |-> a[1], axis |-> a[2]])))
     \o LET offs == IF n <= 6 THEN From0(n + 1) ELSE <<0, 1, n \div 2, n - 2, n - 1, n>>
            lens == <<1, 2, 3, n - 1, n, n + 1>>
        IN FlatEach(offs, LAMBDA o : FlatEach(lens, LAMBDA k : When(k > 0,
             << C(<<sh>>, [op |-> "subslice_flat", off |-> o, len |-> k, sh |-> IF k % 2 = 0 THEN <<2, k \div 2>> ELSE <<k>>]) >>)))
        \o << C(<<sh>>, [op |-> "subslice_flat", off |-> 0, len |-> n, sh |-> <<n + 1>>]),
              C(<<sh>>, [op |-> "subslice_flat", off |-> 0, len |-> 1, sh |-> <<>>]),
              C(<<sh>>, [op |-> "subslice_flat", off |-> 0, len |-> 1, sh |-> <<0>>]),
              C(<<sh>>, [op |-> "subslice_flat", off |-> n - 1, len |-> 1, sh |-> <<2, 0>>]),
              U(<<sh>>, [op |-> "subslice_flat", off |-> 0, len |-> 0, sh |-> <<>>]),
              U(<<sh>>, [op |-> "subslice_flat", off |-> n, len |-> 0, sh |-> <<0>>]),
              C(<<sh>>, [op |-> "subslice_flat", off |-> n - 1, len |-> 1, sh |-> <<1, 1>>]),
              C(<<sh>>, [op |-> "subslice_flat", off |-> 0, len |-> n, sh |-> sh]) >>)

(***************************************************************************)
(* C05 reading                                                             *)
(***************************************************************************)
CasesC05(z) ==
  FlatEach(Shapes0, LAMBDA sh :
     LET n == Size(sh)
         is == IF n <= 9 THEN From0(n + 3) \o <<n + 9>> ELSE <<0, 1, n \div 2, n - 2, n - 1, n, n + 1, n + 9>>
         ws == IF n <= 7 THEN From0(2 * n + 3) ELSE <<0, 1, n - 1, n, n + 1, 2 * n - 1, 2 * n, 2 * n + 1>>
     IN << C(<<sh>>, [op |-> "as_slice"]), C(<<sh>>, [op |-> "iter"]), C(<<sh>>, [op |-> "deref"]),
           C(<<sh>>, [op |-> "as_ref"]), C(<<sh>>, [op |-> "into_iter"]), C(<<sh>>, [op |-> "debug"]),
           C(<<sh>>, [op |-> "query"]) >>
        \o Each(is, LAMBDA i : C(<<sh>>, [op |-> "get", i |-> i]))
        \o Each(is, LAMBDA i : C(<<sh>>, [op |-> "index", i |-> i]))
        \o Each(ws, LAMBDA i : C(<<sh>>, [op |-> "wrap_slice", i |-> i]))
        \o (IF n = 0 THEN <<>> ELSE Each(ws, LAMBDA i : C(<<sh>>, [op |-> "wrap_ptr", i |-> i])))
        \o FlatEach(ws, LAMBDA i : Each(<<1, 2, n, n + 1>>, LAMBDA k : C(<<sh>>, [op |-> "wrap_slice_n", i |-> i, n |-> k])))
        \o When(sh # <<>>, << C(<<sh>>, [op |-> "rows"]) >>)
        \o When(Len(sh) \in 2..5,
             LET ixs == IF n <= 24 THEN [i \in 1..n |-> Unravel(sh, i - 1)]
                        ELSE << Unravel(sh, 0), Unravel(sh, n - 1), Unravel(sh, n \div 2), Unravel(sh, n \div 3), Unravel(sh, 1) >>
                 over == [k \in 1..Len(sh) |-> [j \in 1..Len(sh) |-> IF j = k THEN sh[j] ELSE 0]]
                 over2 == [k \in 1..Len(sh) |-> [j \in 1..Len(sh) |-> IF j = k THEN sh[j] ELSE sh[j] - 1]]
             IN Each(ixs \o over \o over2, LAMBDA ix : C(<<sh>>, [op |-> "mindex", ix |-> ix])))
        \o When(Len(sh) \in 1..4, << C(<<sh>>, [op |-> "mindex", ix |-> [j \in 1..(Len(sh) + 1) |-> 0]]) >>))

(***************************************************************************)
(* C06 construction                                                        *)
(***************************************************************************)
RECURSIVE NestOf(_, _, _)
NestOf(sh, base, k) ==     \* nested sequences of shape sh labelled in order
  IF sh = <<>> THEN base + k
  ELSE [i \in 1..sh[1] |-> NestOf(Tail(sh), base, k + (i - 1) * Size(Tail(sh)))]
(* ragged variants: the last entry at a level is shortened or lengthened *)
RECURSIVE Spoil(_, _, _)
Spoil(x, d, more) ==
  IF d = 0 THEN IF more THEN Append(x, IF Len(x) = 0 THEN 1 ELSE x[1]) ELSE Front(x)
  ELSE [x EXCEPT ![Len(x)] = Spoil(x[Len(x)], d - 1, more)]
SpoilFirst(x, d, more) == IF d = 0 THEN Spoil(x, 0, more) ELSE [x EXCEPT ![1] = Spoil(x[1], d - 1, more)]
(* ragged variants with the right number of elements: the entry at path p gives its last part to the one at path q *)
RECURSIVE NAt(_, _)
NAt(x, p) == IF p = <<>> THEN x ELSE NAt(x[p[1]], Tail(p))
RECURSIVE SetAt(_, _, _)
SetAt(x, p, y) == IF p = <<>> THEN y ELSE [x EXCEPT ![p[1]] = SetAt(x[p[1]], Tail(p), y)]
Shift(x, p, q) ==
  LET y == SetAt(x, q, Append(NAt(x, q), Last(NAt(x, p)))) IN SetAt(y, p, Front(NAt(x, p)))
Paths(sh, k) ==      \* pairs of different entries at nesting level k
  LET n == Size(SubSeq(sh, 1, k))
      path(i) == [j \in 1..k |-> (((i \div Size(SubSeq(sh, j + 1, k))) % sh[j]) + 1)]
      ps == << <<0, n - 1>>, <<n - 1, 0>>, <<0, 1>>, <<1, 0>>, <<n - 2, n - 1>>, <<n - 1, n - 2>>, <<1, 2>>, <<2, 1>> >>
      ok == SelectSeq(ps, LAMBDA a : a[1] # a[2] /\ a[1] \in 0..(n - 1) /\ a[2] \in 0..(n - 1))
  IN [i \in DOMAIN ok |-> <<path(ok[i][1]), path(ok[i][2])>>]
NestShapes == << <<1, 1>>, <<2, 3>>, <<3, 2>>, <<1, 4>>, <<4, 1>>, <<5, 3>>, <<2, 3, 2>>, <<1, 2, 4>>, <<3, 1, 1>>, <<2, 2, 3, 2>>, <<1, 3, 1, 2>>, <<3, 2, 2, 1>>,
                 <<2, 1, 2, 1, 3>>, <<1, 2, 1, 2, 2>>, <<2, 2, 2, 2, 2>>, <<9, 2>>, <<2, 9>>, <<3, 5, 4>>, <<4, 3, 5>>, <<2, 3, 4, 5>>, <<5, 2, 3, 4>>, <<3, 1, 5, 2>>,
                 <<1, 1, 1, 2, 4>>, <<1, 2, 3, 4, 5>>, <<3, 2, 1, 5, 4>>, <<2, 3, 5, 1, 4>>, <<4, 1, 3, 2, 6>> >>
CasesC06(z) ==
  FlatEach(Shapes0 \o << <<0>>, <<0, 3>>, <<2, 0>>, <<1, 1, 1, 1, 1, 1>>, <<1, 1, 1, 1, 1, 1, 1>> >>, LAMBDA sh :
     LET n == Size(sh) IN
     FlatEach(<<0, 1, 2, 3>>, LAMBDA sf :
       << C(<<>>, [op |-> "from_vec", sh |-> sh, sform |-> sf, v |-> Seqv(100, n)]) >>
       \o << C(<<>>, [op |-> "from_box", sh |-> sh, sform |-> sf, v |-> Seqv(100, n)]),
             C(<<>>, [op |-> "init", sh |-> sh, sform |-> sf, s |-> 5]),
             C(<<>>, [op |-> "init_rindexed", sh |-> sh, sform |-> sf, s |-> 5]) >>)
     \o << C(<<>>, [op |-> "from_vec", sh |-> sh, sform |-> 0, v |-> Seqv(100, n + 1)]),
           C(<<>>, [op |-> "from_box", sh |-> sh, sform |-> 0, v |-> Seqv(100, n)]),
           C(<<>>, [op |-> "from_box", sh |-> sh, sform |-> 0, v |-> Seqv(100, n + 2)]) >>
     \o When(n > 0, << C(<<>>, [op |-> "from_vec", sh |-> sh, sform |-> 0, v |-> Seqv(100, n - 1)]) >>)
     \o Each(<<0, 1, 2>>, LAMBDA f : C(<<>>, [op |-> "fill", sh |-> sh, sform |-> 0, form |-> f, s |-> IF f = 2 THEN 0 ELSE 9]))
     \o When(n > 0 /\ Len(sh) <= 5, << C(<<sh, sh>>, [op |-> "merge", sh |-> <<2>> \o sh, sform |-> 0]),
                       C(<<sh, <<2>>, sh>>, [op |-> "merge", sh |-> <<2 * n + 2>>, sform |-> 0]),
                       C(<<sh, <<1>>, <<1>> >>, [op |-> "merge", sh |-> <<n + 2>>, sform |-> 0]),
                       C(<< <<2>>, sh, <<1>>, sh>>, [op |-> "merge", sh |-> <<2 * n + 3>>, sform |-> 0]),
                       C(<<sh, sh>>, [op |-> "merge", sh |-> <<2 * n + 1>>, sform |-> 0]),
                       C(<<sh>>, [op |-> "merge", sh |-> sh, sform |-> 1]) >>)
     \o When(n > 0 /\ n < 12 /\ Len(sh) <= 5 /\ Single, Each(<<7, 9, 17>> \o When(n < 4, <<33, 65, 130, 257>>), LAMBDA m :
            [srcs |-> <<sh, sh>>, a |-> [i \in 1..m |-> (i % 2) + 1], e |-> [op |-> "merge", sh |-> <<m>> \o sh, sform |-> 0]]))
     \o When(n > 0 /\ n < 12 /\ Len(sh) <= 5 /\ Single, FlatEach(<<7, 9, 17>> \o When(n < 4, <<33, 65, 130, 257>>), LAMBDA m : Each(<<0, 1, 2>>, LAMBDA f :
            [srcs |-> <<sh, sh>>, a |-> [i \in 1..m |-> (i % 2) + 1], e |-> [op |-> "tensors", form |-> f]])))
     \o When(n > 0 /\ Len(sh) <= 6,
          FlatEach(<<0, 1, 2>>, LAMBDA f :
            << C(<<sh>>, [op |-> "tensors", form |-> f]), C(<<sh, sh>>, [op |-> "tensors", form |-> f]),
               C(<<sh, sh, sh>>, [op |-> "tensors", form |-> f]), C(<<sh, <<n + 1>> >>, [op |-> "tensors", form |-> f]),
               C(<<sh, <<1, 1, n>> >>, [op |-> "tensors", form |-> f]),
               C(<<sh, sh, <<1, n>> >>, [op |-> "tensors", form |-> f]) >>)))
  \o FlatEach(<<0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 31, 64, 65, 130>>, LAMBDA n :
        Each(<<0, 1, 2, 3, 4, 5, 6, 7, 8, 9>>, LAMBDA f : C(<<>>, [op |-> "from", form |-> f, v |-> Seqv(200, n)])))
  \o Each(<<0, 1, 2>>, LAMBDA f : C(<<>>, [op |-> "from_scalar", form |-> f, v |-> <<31>>]))
  \o FlatEach(<< << <<0>>, <<1>> >>, << <<3>>, <<1>> >>, << <<2, 3>>, <<0, 1>> >>, << <<2, 3>>, <<1, 0>> >>, << <<0, 6>>, <<1, 0>> >>, << <<1, 1, 4>>, <<0, 3, 0>> >>, << <<2, 2>>, <<0, 0>> >> >>,
        LAMBDA q : FlatEach(<<0, 1, 2>>, LAMBDA f : Each(<<Size(q[1]), 0, 1, 6>>, LAMBDA n :
             C(<<>>, [op |-> "from_vec_big", sh |-> q[1], hi |-> q[2], form |-> f, v |-> Seqv(50, n)]))))
  \o << C(<<>>, [op |-> "opt", v |-> <<>>]), C(<<>>, [op |-> "opt", v |-> <<8>>]) >>
  \o FlatEach(<< <<1,1>>, <<1,2>>, <<1,3>>, <<1,4>>, <<2,1>>, <<2,2>>, <<2,3>>, <<2,4>>, <<3,1>>, <<3,2>>, <<3,3>>, <<3,4>>, <<5, 3>>, <<9, 4>>, <<7, 1>> >>,
        LAMBDA sh : Each(<<0, 1, 2>> \o When(sh[1] <= 3, <<3>>), LAMBDA f : C(<<>>, [op |-> "rows_c", form |-> f, sh |-> sh, v |-> Seqv(300, Size(sh))])))
  \o Each(<< <<2,3,2>>, <<1,2,3>>, <<3,1,2>>, <<2,1,1>>, <<1,1,1>>, <<3,2,1>>, <<2,1,3,2>>, <<1,2,2,3>>, <<3,1,1,2>>, <<2,2,2,2>> >>,
        LAMBDA sh : C(<<>>, [op |-> "rows_c", form |-> 0, sh |-> sh, v |-> Seqv(300, Size(sh))]))
  \o FlatEach(NestShapes, LAMBDA sh :
        LET x == NestOf(sh, 400, 1)
            d == Len(sh)
            one(y) == C(<<>>, [op |-> "nested", depth |-> d, form |-> 0, nest |-> y])
        IN <<one(x)>>
           \o When(d = 3 /\ sh[3] <= 4, << C(<<>>, [op |-> "nested", depth |-> d, form |-> 1, nest |-> x]) >>)
           \o FlatEach(From0(d), LAMBDA k :
                 (IF k = 0 THEN <<>> ELSE << one(Spoil(x, k, TRUE)) >> \o When(sh[k + 1] > 1, << one(Spoil(x, k, FALSE)) >>)
                  \o When(sh[1] > 1, << one(SpoilFirst(x, k, TRUE)) >>
                         \o When(sh[k + 1] > 1, << one(SpoilFirst(x, k, FALSE)) >>))
                  \o When(sh[k + 1] > 1, Each(Paths(sh, k), LAMBDA pq : one(Shift(x, pq[1], pq[2]))))))
           \o When(d = 2, << C(<<>>, [op |-> "join", nest |-> x]), C(<<>>, [op |-> "join", nest |-> Spoil(x, 1, TRUE)]),
                             C(<<>>, [op |-> "join", nest |-> Append(x, <<>>)]) >>))

(***************************************************************************)
(* C08 element-wise mapping                                                *)
(***************************************************************************)
Sufs(sh) == [k \in 1..(Len(sh) + 1) |-> Suffix(sh, k - 1)]
Mis(sh) ==   \* shapes that do not broadcast with sh
  When(sh # <<>>, << SetDim(sh, 0, sh[1] + 1), SetDim(sh, Len(sh) - 1, LastDim(sh) + 1) >>)
  \o When(Len(sh) > 1, << <<LastDim(sh) + 1>>, SetDim(Tail(sh), 0, sh[2] + 2) >>)
  \o When(sh # <<>> /\ LastDim(sh) > 1, << SetDim(sh, Len(sh) - 1, 1) >>)
  \o When(Len(sh) > 1 /\ LastDim(sh) # sh[1], << Reverse(sh) >>)
  \o When(Len(sh) = 1 /\ sh[1] > 2, << <<2 * sh[1]>> >>)
CasesC08(z) ==
  FlatEach(Shapes0, LAMBDA sh :
     << C(<<sh>>, [op |-> "map"]), C(<<sh>>, [op |-> "map", pan |-> 1]), C(<<sh>>, [op |-> "map", pan |-> Size(sh)]),
        C(<<sh>>, [op |-> "not"]), C(<<sh>>, [op |-> "xor_s", s |-> 77]) >>
     \o Each(<<1, 2, 3, 4>>, LAMBDA n : C(<<sh>>, [op |-> "map_expand", n |-> n]))
     \o When(sh # <<>>, Each(<<1, 2, 3, 4>>, LAMBDA n : C(<<sh>>, [op |-> "map_row", n |-> n]))
                        \o << C(<<sh>>, [op |-> "map_row", n |-> 2, pan |-> 1]) >>)
     \o FlatEach(Sufs(sh), LAMBDA q :
          << C(<<sh, q>>, [op |-> "map2"]), C(<<q, sh>>, [op |-> "map2"]), C(<<sh, q>>, [op |-> "xor"]),
             C(<<q, sh>>, [op |-> "xor"]), C(<<sh, q>>, [op |-> "map2", pan |-> MaxI(1, Size(sh) - 1)]) >>)
     \o FlatEach(Mis(sh), LAMBDA q : << C(<<sh, q>>, [op |-> "map2"]), C(<<q, sh>>, [op |-> "map2"]), C(<<sh, q>>, [op |-> "xor"]) >>)
     \o When(Len(sh) <= 3 \/ Deep, FlatEach(Sufs(sh), LAMBDA q :
          FlatEach(Sufs(sh), LAMBDA w : << C(<<sh, q, w>>, [op |-> "map3"]), C(<<q, sh, w>>, [op |-> "map3"]), C(<<q, w, sh>>, [op |-> "map3"]) >>)))
     \o FlatEach(Mis(sh), LAMBDA q : << C(<<sh, q, sh>>, [op |-> "map3"]), C(<<sh, sh, q>>, [op |-> "map3"]), C(<<q, sh, sh>>, [op |-> "map3"]) >>))

Empties == << << <<0>>, <<0>> >>, << <<2, 0>>, <<0>> >>, << <<0, 3>>, <<3>> >>, << <<0, 3>>, <<0, 3>> >>, << <<0, 2>>, <<>> >>, << <<2, 0, 3>>, <<0, 3>> >>, << <<2, 0, 3>>, <<3>> >> >>
CasesC08e(z) ==
  FlatEach(Empties, LAMBDA q :
     << C(q, [op |-> "map2"]), C(Reverse(q), [op |-> "map2"]), C(<<q[1], q[2], q[1]>>, [op |-> "map3"]), C(<<q[2], q[1], q[2]>>, [op |-> "map3"]),
        C(<<q[1], q[1], q[2]>>, [op |-> "map3"]), C(<<q[1]>>, [op |-> "map"]), C(<<q[1]>>, [op |-> "map_expand", n |-> 2]), C(q, [op |-> "xor"]) >>)

(***************************************************************************)
(* C10 folds, C12 normalisation                                            *)
(***************************************************************************)
CasesC10(z) ==
  FlatEach(ShapesAll, LAMBDA sh :
     LET r == Len(sh) IN
     << C(<<sh>>, [op |-> "fold", s |-> 3]), C(<<sh>>, [op |-> "reduce"]) >>
     \o FlatEach(AxOpt(r), LAMBDA a :
          << C(<<sh>>, [op |-> "fold_axis", ax |-> a[1], axis |-> a[2], s |-> 3]),
             C(<<sh>>, [op |-> "reduce_axis", ax |-> a[1], axis |-> a[2]]) >>
          \o Each(<<1, 2, 3, 4>>, LAMBDA n : C(<<sh>>, [op |-> "fold_row", ax |-> a[1], axis |-> a[2], s |-> 3, n |-> n])))
     \o << C(<<sh>>, [op |-> "fold_axis", ax |-> "axis", axis |-> 0, s |-> 4, pan |-> 1]),
           C(<<sh>>, [op |-> "fold_axis", ax |-> "axis", axis |-> -1, s |-> 4, pan |-> Size(sh)]),
           C(<<sh>>, [op |-> "reduce_axis", ax |-> "axis", axis |-> 0, pan |-> 2]) >>)
  \o << C(<< <<>> >>, [op |-> "fold", s |-> 3]), C(<< <<>> >>, [op |-> "reduce"]),
        C(<< <<0>> >>, [op |-> "fold", s |-> 3]), C(<< <<0>> >>, [op |-> "reduce"]),
        C(<< <<>> >>, [op |-> "fold_axis", ax |-> "none", axis |-> 0, s |-> 3]),
        C(<< <<>> >>, [op |-> "reduce_axis", ax |-> "none", axis |-> 0]) >>
CasesC12(z) ==
  FlatEach(ShapesAll, LAMBDA sh :
     FlatEach(AxOpt(Len(sh)), LAMBDA a : Each(<<0, 6>>, LAMBDA s :
        C(<<sh>>, [op |-> "normalize", ax |-> a[1], axis |-> a[2], s |-> s]))
        \o << C(<<sh>>, [op |-> "normalize", ax |-> a[1], axis |-> a[2], s |-> 2, pan |-> Size(sh)]) >>))
  \o << C(<< <<>> >>, [op |-> "normalize", ax |-> "none", axis |-> 0, s |-> 2]) >>

(***************************************************************************)
(* C13 joining                                                             *)
(***************************************************************************)
(* operand lists for joining along axis k: the axis extent varies *)
Vary(sh, k, ns) == [i \in 1..Len(ns) |-> SetDim(sh, k, ns[i])]
LongLists(m, f) ==
  LET turn(n) == [i \in 1..m |-> ((i * i + i \div 3) % n) + 1]
      bad(i) == [j \in 1..m |-> IF j = i THEN 4 ELSE (j % 3) + 1]
      L(srcs, a, e) == [srcs |-> srcs, a |-> a, e |-> [form |-> f] @@ e]
      three == << <<2>>, <<1>>, <<3>> >>
      eq == << <<2, 3>>, <<2, 3>>, <<2, 3>> >>
  IN << L(three, turn(3), [op |-> "concat", ax |-> "none", axis |-> 0]),
        L(<< <<2, 1>>, <<2, 2>>, <<2, 3>> >>, turn(3), [op |-> "concat", ax |-> "axis", axis |-> 1]),
        L(<< <<3>>, <<3>>, <<3>> >>, turn(3), [op |-> "stack", ax |-> "none", axis |-> 0]), L(<< <<3>>, <<3>>, <<3>> >>, turn(3), [op |-> "stack", ax |-> "axis", axis |-> 1]),
        L(<< <<2>>, <<2>>, <<2>> >>, turn(3), [op |-> "vstack"]), L(three, turn(3), [op |-> "hstack"]), L(<< <<2>>, <<2>>, <<2>> >>, turn(3), [op |-> "dstack"]) >>
     \o When(f < 4, << L(eq, turn(3), [op |-> "stack", ax |-> "axis", axis |-> -1]), L(eq, turn(3), [op |-> "vstack"]), L(eq, turn(3), [op |-> "dstack"]),
                       L(Append(eq, <<3, 2>>), bad(m), [op |-> "stack", ax |-> "none", axis |-> 0]), L(Append(eq, <<2, 4>>), bad(m - 1), [op |-> "concat", ax |-> "none", axis |-> 0]),
                       L(Append(eq, <<3, 3>>), bad(m), [op |-> "hstack"]), L(Append(eq, <<6>>), bad(m), [op |-> "vstack"]) >>)
CasesC13(z) ==
  FlatEach(ShapesAll, LAMBDA sh :
     LET r == Len(sh)
         lists == IF Size(sh) > 30 THEN << <<1, 2>>, <<2, 1, 3>> >> ELSE << <<1>>, <<2, 1>>, <<1, 3>>, <<3, 1, 2>>, <<1, 1, 2, 1>> >>
     IN FlatEach(AxesOf(r), LAMBDA a : Each(lists, LAMBDA ns :
              C(Vary(sh, Axis(a[2], r), ns), [op |-> "concat", ax |-> a[1], axis |-> a[2]])))
        \o Each(<< <<2, 1>>, <<3, 1, 2>>, <<1, 1, 2, 1>>, <<1, 2, 1, 1, 1>> >>, LAMBDA ns : C(Vary(sh, 0, ns), [op |-> "concat", ax |-> "none", axis |-> 0]))
        \o Each(<< <<2, 1>>, <<1, 3>> >>, LAMBDA ns : C(Vary(sh, 0, ns), [op |-> "append"]))
        \o FlatEach(AxesOf(r + 1), LAMBDA a : When(r < 6, Each(<<1, 2, 3>>, LAMBDA n : C([i \in 1..n |-> sh], [op |-> "stack", ax |-> a[1], axis |-> a[2]]))))
        \o Each(<<1, 2, 3, 4, 5>>, LAMBDA n : C([i \in 1..n |-> sh], [op |-> "stack", ax |-> "none", axis |-> 0]))
        \o Each(<<1, 2, 3, 4>>, LAMBDA n : C([i \in 1..n |-> sh], [op |-> "vstack"]))
        \o Each(<< <<2>>, <<2, 1>>, <<1, 3, 2>> >>, LAMBDA ns : C(Vary(sh, IF r = 1 THEN 0 ELSE 1, ns), [op |-> "hstack"]))
        \o Each(<<1, 2, 3>>, LAMBDA n : C([i \in 1..n |-> sh], [op |-> "dstack"]))
        (* lists that must be rejected *)
        \o FlatEach(Mis(sh), LAMBDA q :
              << C(<<sh, q>>, [op |-> "stack", ax |-> "none", axis |-> 0]), C(<<sh, sh, q>>, [op |-> "vstack"]),
                 C(<<sh, sh, q>>, [op |-> "concat", ax |-> "axis", axis |-> 0]), C(<<q, sh>>, [op |-> "concat", ax |-> "axis", axis |-> 0]),
                 C(<<sh, q>>, [op |-> "concat", ax |-> "axis", axis |-> -1]), C(<<sh, q>>, [op |-> "stack", ax |-> "axis", axis |-> -1]),
                 C(<<sh, q>>, [op |-> "dstack"]) >>)
        \o When(r < 6, << C(<<sh, <<1>> \o sh>>, [op |-> "concat", ax |-> "axis", axis |-> 0]),
                          C(<<sh, <<1>> \o sh>>, [op |-> "stack", ax |-> "axis", axis |-> 0]),
                          C(<<sh, Append(sh, 1)>>, [op |-> "concat", ax |-> "axis", axis |-> 0]),
                          C(<<Append(sh, 1), sh>>, [op |-> "stack", ax |-> "none", axis |-> 0]) >>))
  \o << C(<< <<>>, <<>> >>, [op |-> "stack", ax |-> "none", axis |-> 0]), C(<< <<>>, <<>>, <<>> >>, [op |-> "vstack"]),
        C(<< <<>>, <<>> >>, [op |-> "concat", ax |-> "none", axis |-> 0]) >>
  (* long operand lists in every form a list can be given *)
  \o FlatEach(<< <<6, 15>>, <<7, 15>>, <<8, 15>>, <<9, 15>>, <<10, 15>>, <<11, 4>>, <<16, 4>>, <<17, 4>>, <<33, 4>>, <<65, 2>>, <<130, 1>>, <<258, 1>> >>, LAMBDA q :
        FlatEach(From0(q[2]), LAMBDA f : LongLists(q[1], f)))

(***************************************************************************)
(* C14 splitting                                                           *)
(***************************************************************************)
CutLists(d) ==
  << <<>>, <<1>>, <<d>>, <<d + 1>>, <<0>>, <<0, d>> >>
  \o When(d > 1, << <<d - 1>>, <<1, d>>, <<1, 1>>, <<d, 1>>, <<1, d - 1>> >>)
  \o When(d > 2, << <<1, 2>>, <<2, 1>>, <<0, 1, 2>>, <<1, 2, d>>, <<2, 2>>, <<1, d + 1>> >>)
  \o When(d > 4, << <<1, 2, 4>>, <<2, 3, 3, 4>>, <<1, 3, 2>> >>)
CasesC14(z) ==
  FlatEach(ShapesAll, LAMBDA sh :
     LET r == Len(sh) IN
     FlatEach(<< <<"none", 0>> >> \o AxesOf(r), LAMBDA a :
        LET d == Dim(sh, IF a[1] = "none" THEN 0 ELSE Axis(a[2], r)) IN
        Each(IF d <= 9 THEN From0(d + 2) ELSE <<1, 2, 3, 4, 5, d, d + 1, 7>>, LAMBDA n :
            C(<<sh>>, [op |-> "split", ax |-> a[1], axis |-> a[2], n |-> n]))
        \o Each(CutLists(d), LAMBDA q : C(<<sh>>, [op |-> "split_at", ax |-> a[1], axis |-> a[2], cuts |-> q]))
        \o When(a[1] # "none", << C(<<sh>>, [op |-> "unstack", ax |-> a[1], axis |-> a[2]]) >>)))
  (* many positions at once *)
  \o FlatEach(<< << <<90>>, 0 >>, << <<45, 2>>, 0 >>, << <<2, 45>>, 1 >>, << <<2, 45>>, -1 >>, << <<2, 70, 2>>, 1 >> >>, LAMBDA q :
        LET d == Dim(q[1], Axis(q[2], Len(q[1]))) IN
        Each(<< Upto(10), Upto(17), Upto(24), Upto(33), Upto(40), From0(d), Upto(d - 1), [i \in 1..((d - 1) \div 2) |-> 2 * i], [i \in 1..(d \div 2) |-> 2 * ((i + 1) \div 2)],
                [i \in 1..30 |-> IF i < 8 THEN 3 * i ELSE i + 14], [i \in 1..22 |-> 2 * i - (i % 2)], [i \in 1..(2 * 20) |-> i - (i % 2)],
                [i \in 1..24 |-> 25 - i], [i \in 1..24 |-> IF i = 22 THEN 30 ELSE i] >>, LAMBDA c : C(<<q[1]>>, [op |-> "split_at", ax |-> "axis", axis |-> q[2], cuts |-> c]))
        \o Each(<<9, 10, 14, 15, 18, 30, 35, 45, 70, 90, 22, 23>>, LAMBDA n : C(<<q[1]>>, [op |-> "split", ax |-> "axis", axis |-> q[2], n |-> n])))

(***************************************************************************)
(* C15 transpose and tile                                                  *)
(***************************************************************************)
TileM(r) == << <<1>>, <<2>>, <<3>>, <<0>> >> \o Tuples(2, <<1, 2, 3>>) \o << <<2, 0>>, <<0, 2>> >>
            \o << <<2, 1, 3>>, <<1, 2, 1>>, <<1, 1, 2>>, <<2, 2, 2>>, <<1, 2, 1, 2>>, <<2, 1, 1, 1>>, <<1, 1, 1, 1, 2>>, <<2, 1, 1, 1, 1, 2>>, <<1, 1, 1, 1, 1, 1, 1>>, <<2, 1, 1, 1, 1, 1, 1>> >>
CasesC15(z) ==
  FlatEach(ShapesAll, LAMBDA sh :
     Each(<<0, 1, 2, 3>>, LAMBDA f : C(<<sh>>, [op |-> "transpose", form |-> f]))
     \o (IF Size(sh) > 40 THEN Each(<< <<2>>, <<1, 2>>, <<2, 1>>, <<2, 2, 1>> >>, LAMBDA m : C(<<sh>>, [op |-> "tile", m |-> m]))
         ELSE Each(TileM(Len(sh)), LAMBDA m : C(<<sh>>, [op |-> "tile", m |-> m]))))
  \o Each(<< <<1>>, <<3>>, <<2, 2>>, <<2, 1, 2>>, <<9>>, <<130>>, <<300>>, <<5, 7>>, <<1, 40>>, <<40, 1>>, <<3, 4, 5>> >>, LAMBDA m : C(<< <<>> >>, [op |-> "tile", m |-> m]))
  (* many repetitions *)
  \o FlatEach(<< <<1>>, <<2>>, <<3>>, <<1, 2>>, <<2, 1>>, <<3, 2>>, <<2, 3>>, <<1, 2, 3>>, <<2, 1, 2>>, <<2, 3, 2>>, <<1, 2, 1, 2>> >>, LAMBDA sh :
        Each(<< <<4>>, <<5>>, <<7>>, <<8>>, <<9>>, <<16>>, <<17>>, <<33>>, <<65>>, <<129>>, <<257>>, <<4, 1>>, <<1, 4>>, <<5, 4>>, <<9, 2>>, <<2, 9>>, <<17, 1>>, <<33, 2>>, <<1, 65>>, <<65, 1>>,
                <<4, 1, 5>>, <<5, 4, 3>>, <<1, 9, 1>>, <<9, 1, 2>>, <<2, 1, 9>>, <<4, 1, 2, 5>>, <<1, 5, 1, 4>> >>, LAMBDA m : C(<<sh>>, [op |-> "tile", m |-> m])))

(***************************************************************************)
(* C16 pattern matrices                                                    *)
(***************************************************************************)
CasesC16(z) ==
  FlatEach(<<0, 1, 2, 3, 4, 5, 8, 9, 17, 33>>, LAMBDA n :
      Each(<<0, 1, 2, 3>>, LAMBDA f : C(<<>>, [op |-> "eye", n |-> n, form |-> f]))
      \o When(n > 0, Each(<<0, 1>>, LAMBDA f : C(<<>>, [op |-> "tri", n |-> n, form |-> f]))))
  \o FlatEach(Shapes0, LAMBDA sh :
      FlatEach(<<0, 1>>, LAMBDA f : << C(<<>>, [op |-> "zeros", sh |-> sh, form |-> f]), C(<<>>, [op |-> "ones", sh |-> sh, form |-> f]),
                                       C(<<>>, [op |-> "fill", sh |-> sh, sform |-> f, form |-> f, s |-> 9]) >>)
      \o When(sh # <<>>, << C(<<sh>>, [op |-> "tril"]), C(<<sh>>, [op |-> "triu"]) >>)
      \o When(Size(sh) <= 20 /\ sh # <<>>, << C(<<sh>>, [op |-> "diagflat"]) >>))
  \o FlatEach(<<1, 2, 3, 4, 5>>, LAMBDA n : Each(<< <<>>, <<0>>, <<n - 1>>, <<n>>, <<0, n - 1>>, <<n - 1, 0>>, <<n \div 2>>, <<0, n>> >>,
        LAMBDA ix : C(<<>>, [op |-> "one_hot", ix |-> ix, n |-> n, form |-> n % 2])))
  \o Each(<< <<1, 1>>, <<1, 2>>, <<2, 1>>, <<2, 2>>, <<2, 3>>, <<3, 2>>, <<3, 4>>, <<4, 3>>, <<5, 2>> >>, LAMBDA p : C(<<>>, [op |-> "mgrid", m |-> p[1], n |-> p[2]]))
  \o FlatEach(<<"meshgrid", "meshgrid_ij">>, LAMBDA op :
       FlatEach(<<1, 2, 3, 5>>, LAMBDA a : << C(<< <<a>> >>, [op |-> op, form |-> a % 2]) >>
         \o FlatEach(<<1, 2, 3, 4, 9>>, LAMBDA b : Each(<<0, 1, 2>>, LAMBDA f : C(<< <<a>>, <<b>> >>, [op |-> op, form |-> f]))
            \o Each(<<1, 2, 3, 4>>, LAMBDA c : C(<< <<a>>, <<b>>, <<c>> >>, [op |-> op, form |-> (a + b + c) % 2]))))
       \o << C(<< <<2, 2>>, <<3>> >>, [op |-> op, form |-> 0]), C(<< <<3>>, <<1, 3>> >>, [op |-> op, form |-> 0]),
             C(<< <<2>>, <<2, 1>>, <<2>> >>, [op |-> op, form |-> 0]) >>)

(***************************************************************************)
(* C27 equality and ordering: two tensors of given contents                *)
(***************************************************************************)
Alter(v, i, d) == [v EXCEPT ![i] = @ + d]
PairCases(sh) ==
  LET n == Size(sh)
      v == Seqv(500, n)
      ps == IF n <= 6 THEN Upto(n) ELSE <<1, 2, n \div 2, n - 1, n>>
  IN << <<sh, v, sh, v>> >>
     \o FlatEach(ps, LAMBDA i : << <<sh, v, sh, Alter(v, i, 1)>>, <<sh, v, sh, Alter(v, i, -7)>> >>)
     \o When(n > 1, << <<sh, v, sh, Alter(Alter(v, 1, 1), n, -9)>>, <<sh, Alter(v, n, 3), sh, Alter(v, 1, 1)>> >>)
EqOnly(sh) ==
  LET n == Size(sh)
      v == Seqv(500, n)
  IN << <<sh, v, <<1>> \o sh, v>>, <<sh, v, Append(sh, 1), v>>, <<sh, v, <<n + 1>>, Append(v, 9)>>, <<sh, v, Reverse(sh), v>> >>
     \o When(n > 1, << <<sh, v, <<n - 1>>, Front(v)>>, <<sh, v, <<n>>, v>>, <<sh, v, <<n - 1>>, Tail(v)>> >>)
P(q, op) == [srcs |-> <<q[1], q[3]>>, vals |-> <<q[2], q[4]>>, e |-> [op |-> op]]
(* a tensor with an element not equal to itself, against itself, a clone, windows over the same buffer, and an equal copy *)
NanAt(sh, i) == [j \in 1..Size(sh) |-> IF j = i THEN NaN ELSE 500 + j]
Alias(sh) ==
  << <<>>, << [op |-> "clone", a |-> <<1>>, d |-> <<2>>, own |-> <<>>, form |-> 0] >>,
     << [op |-> "subslice_flat", a |-> <<1>>, d |-> <<2>>, own |-> <<>>, off |-> 0, len |-> Size(sh), sh |-> sh, sform |-> 0] >>,
     << [op |-> "reshape", a |-> <<1>>, d |-> <<2>>, own |-> <<>>, sh |-> <<Size(sh)>>, sform |-> 0],
        [op |-> "reshape", a |-> <<2>>, d |-> <<2>>, own |-> <<1>>, sh |-> sh, sform |-> 0] >> >>
AliasCases(sh, v, ty) ==
  FlatEach(Alias(sh), LAMBDA m : FlatEach(<<"eq", "cmp">>, LAMBDA op :
     << [srcs |-> <<sh>>, vals |-> <<v>>, ty |-> ty, mid |-> m, e |-> [op |-> op, a |-> IF m = <<>> THEN <<1, 1>> ELSE <<1, 2>>]] >>))
WinCases(sh) ==                                     \* two windows over one buffer at different cells
  LET n == Size(sh) IN
  FlatEach(<<0, 1, n, n + 1>>, LAMBDA o : FlatEach(<<"eq", "cmp">>, LAMBDA op : Each(<<0, 1>>, LAMBDA w :
     [srcs |-> << <<2 * n + 2>> >>, vals |-> << [j \in 1..(2 * n + 2) |-> IF w = 0 THEN 7 ELSE 500 + ((j - 1) % n)] >>,
      mid |-> << [op |-> "subslice_flat", a |-> <<1>>, d |-> <<2>>, own |-> <<>>, off |-> o, len |-> n, sh |-> sh, sform |-> 0],
                 [op |-> "subslice_flat", a |-> <<1>>, d |-> <<3>>, own |-> <<>>, off |-> 0, len |-> n, sh |-> sh, sform |-> 0] >>,
      e |-> [op |-> op, a |-> <<2, 3>>]])))
NanCases(sh) ==
  LET n == Size(sh)
      ps == IF n <= 4 THEN Upto(n) ELSE <<1, 2, n \div 2, n>>
      v == Seqv(500, n)
      N(q, op) == [ty |-> "f32"] @@ P(q, op)
  IN FlatEach(ps, LAMBDA i :
       LET w == NanAt(sh, i) IN
       AliasCases(sh, w, "f32")
       \o FlatEach(<<"eq", "cmp">>, LAMBDA op : << N(<<sh, w, sh, w>>, op), N(<<sh, v, sh, w>>, op), N(<<sh, w, sh, v>>, op) >>
            \o Each(ps, LAMBDA k_ : N(<<sh, w, sh, Alter(v, k_, 3)>>, op))
            \o When(i < n, << N(<<sh, w, sh, Alter(w, n, 3)>>, op) >>)
            \o When(i > 1, << N(<<sh, w, sh, Alter(w, 1, 3)>>, op), N(<<sh, Alter(w, 1, 3), sh, w>>, op) >>)))
CasesC27(z) ==
  FlatEach(Shapes0, LAMBDA sh :
     When(Len(sh) <= 5,
       FlatEach(PairCases(sh), LAMBDA q : << P(q, "eq"), P(q, "cmp"), P(<<q[3], q[4], q[1], q[2]>>, "eq"), P(<<q[3], q[4], q[1], q[2]>>, "cmp") >>)
       \o FlatEach(EqOnly(sh), LAMBDA q : << P(q, "eq"), P(<<q[3], q[4], q[1], q[2]>>, "eq") >>)
       \o When(Size(sh) > 0, AliasCases(sh, Seqv(500, Size(sh)), "") \o WinCases(sh) \o NanCases(sh))))

(***************************************************************************)
(* A few cases per family on tensors past the usual size thresholds        *)
(***************************************************************************)
Huge == << <<1030>>, <<33, 33>>, <<2050, 2>>, <<5, 29, 31>>, <<22001, 3>>, <<3, 1400>> >>
        \o (IF Deep THEN << <<4, 1030>>, <<4100>>, <<2, 33000>>, <<257, 256>> >> ELSE <<>>)
HugeCases(f, sh) ==
  LET n == Size(sh)
      d == sh[1]
      r == Len(sh)
      ends == << <<"axis", 0>>, <<"axis", -1>> >>
      is == <<0, 127, 128, 255, 256, 511, 512, 1023, 1024, n \div 2, n - 1, n>> \o When(n > 65537, <<32767, 32768, 65535, 65536, 65537>>)
      v == Seqv(500, n)
  IN
  CASE f = "C04" -> << C(<<sh>>, [op |-> "reshape", sh |-> <<n>>]), C(<<sh>>, [op |-> "reshape", sh |-> Reverse(sh)]), C(<<sh>>, [op |-> "flatten"]),
                       C(<<sh>>, [op |-> "squeeze"]), C(<<sh>>, [op |-> "clone", form |-> 0]),
                       C(<<sh>>, [op |-> "subslice", off |-> d - 1, len |-> 1]), C(<<sh>>, [op |-> "subslice", off |-> 1, len |-> d - 1]),
                       C(<<sh>>, [op |-> "subslice_flat", off |-> n - 3, len |-> 3, sh |-> <<3>>]), C(<<sh>>, [op |-> "subslice_flat", off |-> 2, len |-> n - 2, sh |-> <<n - 2>>]) >>
    [] f = "C05" -> << C(<<sh>>, [op |-> "iter"]), C(<<sh>>, [op |-> "query"]), C(<<sh>>, [op |-> "into_iter"]) >>
                    \o Each(is, LAMBDA i : C(<<sh>>, [op |-> "get", i |-> i])) \o Each(is, LAMBDA i : C(<<sh>>, [op |-> "index", i |-> i]))
                    \o Each(<<n - 2, 2 * n - 2, 3 * n + 5>>, LAMBDA i : C(<<sh>>, [op |-> "wrap_slice_n", i |-> i, n |-> 2]))
                    \o When(r > 1, << C(<<sh>>, [op |-> "mindex", ix |-> Unravel(sh, n - 1)]), C(<<sh>>, [op |-> "mindex", ix |-> Unravel(sh, (2 * n) \div 3)]) >>)
    [] f = "C06" -> << C(<<>>, [op |-> "from_vec", sh |-> sh, v |-> v]), C(<<>>, [op |-> "from_box", sh |-> sh, v |-> v]),
                       C(<<>>, [op |-> "from_vec", sh |-> sh, v |-> Append(v, 1)]), C(<<>>, [op |-> "init", sh |-> sh, s |-> 5]),
                       C(<<>>, [op |-> "init_rindexed", sh |-> sh, s |-> 5]), C(<<>>, [op |-> "fill", sh |-> sh, form |-> 0, s |-> 9]), C(<<>>, [op |-> "fill", sh |-> sh, form |-> 2, s |-> 0]),
                       
                       C(<<sh, sh>>, [op |-> "merge", sh |-> <<2>> \o sh]), C(<<sh, sh>>, [op |-> "tensors", form |-> 0]) >>
                    \o Each(<<0, 1, 2, 3, 4, 5, 8, 9>>, LAMBDA k_ : C(<<>>, [op |-> "from", form |-> k_, v |-> v]))
                    \o When(r = 2, Each(<<0, 1>>, LAMBDA k_ : C(<<>>, [op |-> IF k_ = 0 THEN "nested" ELSE "join", depth |-> 2, form |-> 0, nest |-> [i \in 1..d |-> [j \in 1..sh[2] |-> 400 + i * sh[2] + j]]])))
    [] f = "C08" -> << C(<<sh>>, [op |-> "map"]), C(<<sh>>, [op |-> "map", pan |-> n]), C(<<sh, sh>>, [op |-> "map2"]), C(<<sh, Suffix(sh, r - 1)>>, [op |-> "map2"]),
                       C(<<Suffix(sh, r - 1), sh>>, [op |-> "map2"]), C(<<sh, <<>> >>, [op |-> "map2"]), C(<<sh, sh>>, [op |-> "xor"]), C(<<sh>>, [op |-> "xor_s", s |-> 77]),
                       C(<<sh, sh, Suffix(sh, r - 1)>>, [op |-> "map3"]), C(<<Suffix(sh, r - 1), sh, sh>>, [op |-> "map3"]), C(<<sh, Suffix(sh, r - 1), <<>> >>, [op |-> "map3"]), C(<<sh>>, [op |-> "map_expand", n |-> 2]), C(<<sh>>, [op |-> "map_row", n |-> 2]) >>
    [] f = "C10" -> << C(<<sh>>, [op |-> "fold", s |-> 3]), C(<<sh>>, [op |-> "reduce"]) >>
                    \o FlatEach(ends, LAMBDA a : << C(<<sh>>, [op |-> "fold_axis", ax |-> a[1], axis |-> a[2], s |-> 3]), C(<<sh>>, [op |-> "reduce_axis", ax |-> a[1], axis |-> a[2]]),
                                                     C(<<sh>>, [op |-> "fold_row", ax |-> a[1], axis |-> a[2], s |-> 3, n |-> 2]) >>)
    [] f = "C12" -> FlatEach(ends, LAMBDA a : << C(<<sh>>, [op |-> "normalize", ax |-> a[1], axis |-> a[2], s |-> 6]) >>) \o << C(<<sh>>, [op |-> "normalize", ax |-> "none", axis |-> 0, s |-> 6]) >>
    [] f = "C13" -> FlatEach(ends, LAMBDA a : << C(Vary(sh, Axis(a[2], r), <<3, Dim(sh, Axis(a[2], r))>>), [op |-> "concat", ax |-> a[1], axis |-> a[2]]),
                                                 C(<<sh, sh>>, [op |-> "stack", ax |-> a[1], axis |-> a[2]]) >>)
                    \o << C(<<sh, sh>>, [op |-> "append"]), C(<<sh, sh>>, [op |-> "vstack"]), C(<<sh, sh>>, [op |-> "dstack"]), C(<<sh, sh>>, [op |-> "hstack"]) >>
    [] f = "C14" -> FlatEach(ends, LAMBDA a : LET k == Dim(sh, Axis(a[2], r)) IN
                       Each(<<2, 3, 5, 11>>, LAMBDA m : C(<<sh>>, [op |-> "split", ax |-> a[1], axis |-> a[2], n |-> m]))
                       \o << C(<<sh>>, [op |-> "split_at", ax |-> a[1], axis |-> a[2], cuts |-> <<1, k - 1>>]) >>
                       \o When(k < 300, << C(<<sh>>, [op |-> "unstack", ax |-> a[1], axis |-> a[2]]) >>))
    [] f = "C15" -> << C(<<sh>>, [op |-> "transpose", form |-> 0]), C(<<sh>>, [op |-> "transpose", form |-> 1]), C(<<sh>>, [op |-> "tile", m |-> <<2>>]), C(<<sh>>, [op |-> "tile", m |-> <<2, 1>>]),
                       C(<<sh>>, [op |-> "tile", m |-> <<1, 3, 1>>]) >>
    [] f = "C16" -> << C(<<>>, [op |-> "zeros", sh |-> sh, form |-> 0]), C(<<>>, [op |-> "ones", sh |-> sh, form |-> 1]), C(<<>>, [op |-> "fill", sh |-> sh, form |-> 0, s |-> 9]) >>
                    \o When(r >= 2, << C(<<sh>>, [op |-> "tril"]), C(<<sh>>, [op |-> "triu"]) >>)
                    \o When(d = 33, << C(<<>>, [op |-> "eye", n |-> 70, form |-> 0]), C(<<>>, [op |-> "eye", n |-> 257, form |-> 1]), C(<<>>, [op |-> "tri", n |-> 130, form |-> 0]),
                                       C(<< <<70>> >>, [op |-> "diagflat"]), C(<< <<260>> >>, [op |-> "diagflat"]), C(<<>>, [op |-> "tri", n |-> 261, form |-> 1]), C(<< <<300>>, <<3>> >>, [op |-> "meshgrid", form |-> 0]), C(<< <<3>>, <<300>> >>, [op |-> "meshgrid_ij", form |-> 0]), C(<< <<130>>, <<70>> >>, [op |-> "meshgrid", form |-> 0]), C(<< <<70>>, <<130>> >>, [op |-> "meshgrid_ij", form |-> 0]),
                                       C(<<>>, [op |-> "one_hot", ix |-> [i \in 1..300 |-> (i * 7) % 11], n |-> 11, form |-> 0]),
                                       C(<<>>, [op |-> "one_hot", ix |-> <<299, 0, 130>>, n |-> 300, form |-> 1]) >>)
    [] f = "C27" -> FlatEach(<<1, n \div 2, n - 1, n>>, LAMBDA i : FlatEach(<<"eq", "cmp">>, LAMBDA op :
                       << P(<<sh, v, sh, v>>, op), P(<<sh, v, sh, Alter(v, i, 1)>>, op), P(<<sh, Alter(v, i, 1), sh, v>>, op) >>)) \o AliasCases(sh, v, "")
    [] OTHER -> <<>>

(***************************************************************************)
(* Realisation                                                             *)
(***************************************************************************)
NForms(op) == CASE op \in {"concat", "stack", "vstack", "hstack", "dstack"} -> 15
                [] op \in {"split", "split_at"} -> 5
                [] op = "append" -> 2
                [] op = "tile" -> 5
                [] OTHER -> 1
NSrc == 5          \* sources live in registers 1..5
Tmp == 6           \* scratch register
CNR == 11          \* registers of a case history; results in 7..11
Mk(sh, v, d) == [op |-> "from_vec", a |-> <<>>, d |-> <<d>>, own |-> <<>>, sh |-> sh, sform |-> 0, v |-> v]
Flatv(a, d, own, off, len, sh) == [op |-> "subslice_flat", a |-> <<a>>, d |-> <<d>>, own |-> own, off |-> off, len |-> len, sh |-> sh, sform |-> 0]
DropR(a) == [op |-> "drop", a |-> a, d |-> <<>>, own |-> <<>>]
Junk(n) == [i \in 1..n |-> 900000 + i]

(* requests that leave Ten(sh, v) in register r, in manner p *)
Provenance(p, sh, v, r) ==
  LET n == Size(sh) IN
  IF n = 0 \/ p = 0 THEN << Mk(sh, v, r) >>
  ELSE IF p = 1 THEN << Mk(<<n + 5>>, Junk(2) \o v \o Junk(3), Tmp), Flatv(Tmp, r, <<1>>, 2, n, sh) >>
  ELSE IF p = 2 THEN << Mk(<<n + 5>>, Junk(2) \o v \o Junk(3), Tmp), Flatv(Tmp, r, <<>>, 2, n, sh), DropR(<<Tmp>>) >>
  ELSE IF p = 3 /\ sh # <<>>
    THEN LET w == n \div sh[1] IN
         << Mk(<<sh[1] + 2>> \o Tail(sh), Junk(w) \o v \o Junk(w), Tmp),
            [op |-> "subslice", a |-> <<Tmp>>, d |-> <<r>>, own |-> <<1>>, off |-> 1, len |-> sh[1]] >>
  ELSE IF p = 4 THEN << Mk(<<n>>, v, Tmp), [op |-> "reshape", a |-> <<Tmp>>, d |-> <<r>>, own |-> <<1>>, sh |-> sh, sform |-> 0] >>
  ELSE IF p = 5 THEN << Mk(<<n + 6>>, Junk(3) \o v \o Junk(3), Tmp), Flatv(Tmp, Tmp, <<>>, 1, n + 4, <<n + 4>>), Flatv(Tmp, r, <<1>>, 2, n, sh) >>
  ELSE << Mk(sh, v, r), [op |-> "clone", a |-> <<r>>, d |-> <<Tmp>>, own |-> <<>>, form |-> 0] >>

(* all sources as windows of one buffer: the same start, adjacent in order, adjacent in reverse order,
   shifted by one, adjacent with all but the first reversed, anywhere *)
RECURSIVE SumTo(_, _)
SumTo(z, i) == IF i = 0 THEN 0 ELSE z[i] + SumTo(z, i - 1)
Together(key, p, shs) ==
  LET k == Len(shs)
      z == [i \in 1..k |-> Size(shs[i])]
      tot == SumTo(z, k)
      big == FoldLeft(LAMBDA a, x : IF x > a THEN x ELSE a, 0, z)
      n == tot + big + k
      off(i) == CASE p = 0 -> 1 [] p = 1 -> 1 + SumTo(z, i - 1) [] p = 2 -> 1 + tot - SumTo(z, i) [] p = 3 -> i [] p = 4 -> (IF i = 1 THEN 1 ELSE 1 + z[1] + tot - SumTo(z, i)) [] OTHER -> RN(key, 60 + i, n - z[i] + 1)
  IN << Mk(<<n>>, Seqv(5000, n), Tmp) >> \o [i \in 1..k |-> Flatv(Tmp, i, <<>>, off(i), z[i], shs[i])]
     \o (IF RP(key, 50, 50) THEN << DropR(<<Tmp>>) >> ELSE <<>>)

TypesFor(op) ==
  CASE op = "not" -> <<"elem", "thin">>
    [] op \in {"xor", "xor_s"} -> <<"elem", "i32", "u64", "b3", "thin">>
    [] op = "tensors" -> <<"i32", "u64", "f32", "b3">>
    [] op \in {"one_hot", "mgrid"} -> <<"f32">>
    [] op \in {"eye", "tri", "zeros", "ones", "tril", "triu", "diagflat", "meshgrid", "meshgrid_ij"} -> <<"elem", "i32", "f32", "u64", "b3", "thin">>
    [] OTHER -> <<"elem", "i32", "elem", "f32", "str", "u64", "thin", "b3", "wide">>

Realise(c, j) ==
  LET key == <<Seed, j, 7001>>
      k == Len(c.srcs)
      mut == c.e.op \notin ReadOps
      tys == TypesFor(c.e.op)
      ty0 == IF IOEnv.FOCUS = "C01" /\ ~Has(c, "untracked") /\ tys[1] = "elem" THEN RS(key, 1, <<"elem", "thin">>)
             ELSE RS(key, 1, IF Has(c, "untracked") THEN SelectSeq(tys, LAMBDA y : y \notin {"elem", "thin"}) ELSE tys)
      ty == IF c.e.op = "from" /\ c.e.form = 7 THEN "str" ELSE IF Has(c, "ty") /\ c.ty # "" THEN c.ty ELSE ty0
      src(i) == Provenance(RN(key, 10 + i, 7), c.srcs[i],
                  IF Has(c, "vals") THEN c.vals[i] ELSE Seqv(1000 * i, Size(c.srcs[i])), i)
      own == SelectSeq(Upto(k), LAMBDA i : RP(key, 20 + i, 30))
      shared == k >= 2 /\ ~Has(c, "vals") /\ ~Has(c, "mid") /\ (\A i \in 1..k : Size(c.srcs[i]) > 0) /\ RP(key, 4, 35)
      base == [a |-> IF Has(c, "a") THEN c.a ELSE Upto(k), d |-> IF mut THEN <<7, 8, 9, 10, 11>> ELSE <<>>,
               own |-> IF mut /\ ~Has(c, "a") THEN own ELSE <<>>]
      nf == NForms(c.e.op)
      form == IF nf > 1 /\ ~Has(c.e, "form") THEN [form |-> RN(key, 2, nf)] ELSE <<>>
      sform == IF Has(c.e, "sh") /\ ~ Has(c.e, "sform") THEN [sform |-> RN(key, 3, 4)] ELSE <<>>
      e == sform @@ (form @@ (c.e @@ base))
  IN [ty |-> ty, nr |-> CNR,
      ev |-> (IF shared THEN Together(key, RN(key, 5, 7), c.srcs) ELSE Flatten_([i \in 1..k |-> src(i)])) \o (IF Has(c, "mid") THEN c.mid ELSE <<>>) \o << e >>]

Cases0(f) ==
  CASE f = "C04" -> CasesC04(0) [] f = "C05" -> CasesC05(0) [] f = "C06" -> CasesC06(0)
    [] f = "C08" -> CasesC08(0) \o CasesC08e(0) [] f = "C10" -> CasesC10(0) [] f = "C12" -> CasesC12(0)
    [] f = "C13" -> CasesC13(0) [] f = "C14" -> CasesC14(0) [] f = "C15" -> CasesC15(0)
    [] f = "C16" -> CasesC16(0) [] f = "C27" -> CasesC27(0)
    [] OTHER -> <<>>
Families == <<"C04", "C05", "C06", "C08", "C10", "C12", "C13", "C14", "C15", "C16", "C27">>
(* joins and splits of very large tensors are slow to evaluate: a few of them *)
Few(f, sh, s) == IF Size(sh) < 10000 \/ Deep \/ f \notin {"C13", "C14", "C15"} THEN s
                 ELSE SelectSeq(s, LAMBDA c : c.e.op \in {"transpose", "tile"} \/ (Has(c.e, "axis") /\ c.e.axis = 0 /\ c.e.op # "stack"))
Cases1(f) == Cases0(f) \o FlatEach(Huge, LAMBDA sh : Few(f, sh, HugeCases(f, sh)))
(* one dimension of more than 2^16 *)
LongOps == {"init_rindexed", "get", "index", "iter", "wrap_slice_n", "map", "map_row", "fold", "reduce_axis", "normalize", "subslice", "subslice_flat", "split_at", "transpose", "tile", "eq"}
VeryLong(f) == SelectSeq(HugeCases(f, <<66001>>), LAMBDA c : c.e.op \in LongOps /\ ~(c.e.op \in {"split_at", "reduce_axis"} /\ c.e.axis # 0))
(* lifetimes and immutability concern every operation *)
Cases(f) == IF f \in {"C01", "C03"} THEN FlatEach(Families, LAMBDA g : Cases1(g)) ELSE Cases1(f) \o VeryLong(f)
=============================================================================
