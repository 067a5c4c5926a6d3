----------------------------- MODULE TensorOps -----------------------------
(***************************************************************************)
(* Value semantics of essay-tensor.                                        *)
(*                                                                         *)
(* A tensor VALUE is a record [sh, v]: `sh` is the list of dimensions,     *)
(* outermost first (the empty list is a scalar), `v` the elements in       *)
(* row-major order (1-based TLA+ sequence).  Everything is defined         *)
(* declaratively through multi-indices (Unravel/Ravel/At/Build), never     *)
(* through the stride loops of the implementation.                         *)
(*                                                                         *)
(* Elements are integer labels.  Caller-supplied functions are the fixed   *)
(* order-sensitive hashes H1/H2 below (the harness passes the same ones),  *)
(* so a result determines which elements were combined, in which order.    *)
(*                                                                         *)
(* An operation's meaning is a record                                      *)
(*   [out |-> "ok",    res |-> <<values>>]   accepted, with its results    *)
(*   [out |-> "panic", res |-> <<>>]         rejected                      *)
(*   [out |-> "val",   res |-> <<>>, val |-> x]  a reading                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Bitwise

MaxRank == 6

Flatten_(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
Prod(s) == FoldLeft(LAMBDA a, b : a * b, 1, s)
Sum(s)  == FoldLeft(LAMBDA a, b : a + b, 0, s)
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b

Size(sh) == Prod(sh)
Stride(sh, k) == Prod(SubSeq(sh, k + 1, Len(sh)))
Unravel(sh, i) == [k \in 1..Len(sh) |-> (i \div Stride(sh, k)) % sh[k]]
Ravel(sh, ix) ==
  FoldLeft(LAMBDA acc, k : acc * sh[k] + ix[k], 0, [k \in 1..Len(sh) |-> k])

Ten(sh, v) == [sh |-> sh, v |-> v]
At(t, ix) == t.v[Ravel(t.sh, ix) + 1]
Build(sh, F(_)) ==
  Ten(sh, TLCEval([i \in 1..Size(sh) |-> F(TLCEval(Unravel(sh, i - 1)))]))
Scalar(x) == Ten(<<>>, <<x>>)
Vector(v) == Ten(<<Len(v)>>, v)
Rank(t) == Len(t.sh)

Ok(rs)   == [out |-> "ok", res |-> rs]
Ok1(t)   == Ok(<<t>>)
Rej      == [out |-> "panic", res |-> <<>>]
Val(x)   == [out |-> "val", res |-> <<>>, val |-> x]
Guard(c, r) == IF c THEN r ELSE Rej

(* sequence helpers *)
InsertDim(sh, k, n) == SubSeq(sh, 1, k) \o <<n>> \o SubSeq(sh, k + 1, Len(sh))
                              \* n becomes dimension number k (0-based)
RemoveDim(sh, k) == SubSeq(sh, 1, k) \o SubSeq(sh, k + 2, Len(sh))
SetDim(sh, k, n) == [sh EXCEPT ![k + 1] = n]
Dim(sh, k) == sh[k + 1]                       \* 0-based, outermost first
RDim(sh, k) == sh[Len(sh) - k]                \* 0-based, innermost first
LastDim(sh) == sh[Len(sh)]
TailFrom(s, n) == SubSeq(s, Len(s) - n + 1, Len(s))   \* the last n entries
Suffix(s, n) == SubSeq(s, n + 1, Len(s))
NonUnit(sh) == SelectSeq(sh, LAMBDA d : d # 1)
RowsOf(t) == LET c == LastDim(t.sh)
             IN [r \in 1..(Len(t.v) \div c) |-> SubSeq(t.v, (r-1)*c + 1, r*c)]

(* axis counted from either end *)
Axis(a, rank) == IF a < 0 THEN a + rank ELSE a

(***************************************************************************)
(* The caller's functions.                                                 *)
(***************************************************************************)
HM == 1000003
H1(a)    == (a * 601 + 17) % HM
H2(a, b) == (a * 601 + b * 1201 + 13) % HM
H3(a, b, c) == H2(H2(a, b), c)
HFold(s0, s) == FoldLeft(LAMBDA acc, x : H2(acc, x), s0, s)
HRow(s) == HFold(7, s)

(***************************************************************************)
(* Broadcasting: trailing dimensions equal; lower rank repeats.            *)
(***************************************************************************)
BcOk(a, b) == LET n == MinI(Len(a), Len(b)) IN TailFrom(a, n) = TailFrom(b, n)
BcShape(a, b) == IF Len(a) < Len(b) THEN b ELSE a
BcAt(t, ix) == At(t, TailFrom(ix, Rank(t)))

Map1(t, F(_)) == Ten(t.sh, [i \in DOMAIN t.v |-> F(t.v[i])])
Map2(a, b, F(_,_)) ==
  Build(BcShape(a.sh, b.sh), LAMBDA ix : F(BcAt(a, ix), BcAt(b, ix)))
Map3(a, b, c, F(_,_,_)) ==
  Build(BcShape(BcShape(a.sh, b.sh), c.sh),
        LAMBDA ix : F(BcAt(a, ix), BcAt(b, ix), BcAt(c, ix)))
Map3Ok(a, b, c) == BcOk(a.sh, b.sh) /\ BcOk(BcShape(a.sh, b.sh), c.sh)

MapRow(t, n) ==      \* each row becomes n values
  LET rows == Front(t.sh)
      sh == IF n = 1 /\ Rank(t) > 1 THEN rows ELSE Append(rows, n)
      rv == TLCEval(RowsOf(t))
  IN Ten(sh, [i \in 1..(Len(rv) * n) |->
               H2(HRow(rv[(i-1) \div n + 1]), (i-1) % n)])
MapExpand(t, n) ==
  Ten(Append(t.sh, n), [i \in 1..(Len(t.v) * n) |->
               H2(t.v[(i-1) \div n + 1], (i-1) % n)])

(***************************************************************************)
(* Folding along an axis.  Line(t, k, ix): the elements of t along axis k  *)
(* at remaining coordinates ix.                                            *)
(***************************************************************************)
Line(t, k, ix) == [j \in 1..Dim(t.sh, k) |-> At(t, InsertDim(ix, k, j - 1))]
AlongAxis(t, k, F(_)) ==
  Build(RemoveDim(t.sh, k), LAMBDA ix : F(Line(t, k, ix)))
FoldAll(t, F(_)) == Scalar(F(t.v))

(* the rows of t along axis k at the remaining (non-column) coordinates ix *)
RowAt(t, ix) == [c \in 1..LastDim(t.sh) |-> At(t, Append(ix, c - 1))]
FoldRowAxis(t, k, n, s0) ==
  LET keep == RemoveDim(Front(t.sh), k)
      acc(ix) == FoldLeft(LAMBDA s, j : H2(s, HRow(RowAt(t, InsertDim(ix, k, j)))),
                          s0, [j \in 1..Dim(t.sh, k) |-> j - 1])
  IN Build(Append(keep, n), LAMBDA ix : H2(acc(Front(ix)), LastDim(ix)))
FoldRowAll(t, n, s0) ==
  LET rv == TLCEval(RowsOf(t))
      acc == TLCEval(HFold(s0, [r \in 1..Len(rv) |-> HRow(rv[r])]))
  IN Ten(<<n>>, [j \in 1..n |-> H2(acc, j - 1)])

(***************************************************************************)
(* Normalisation along axis k: element -> NormF(Complete(accum), element)  *)
(***************************************************************************)
NormAxis(t, k, s0) ==
  LET acc == TLCEval(AlongAxis(t, k, LAMBDA g : H1(HFold(s0, g))))
  IN Build(t.sh, LAMBDA ix : H2(At(acc, RemoveDim(ix, k)), At(t, ix)))
NormAll(t, s0) ==
  LET s == TLCEval(H1(HFold(s0, t.v))) IN Ten(t.sh, [i \in DOMAIN t.v |-> H2(s, t.v[i])])

(***************************************************************************)
(* Joining and splitting                                                   *)
(***************************************************************************)
ConcatOk(ts, k) ==
  /\ Rank(ts[1]) > k
  /\ \A i \in DOMAIN ts : /\ Rank(ts[i]) = Rank(ts[1])
                          /\ RemoveDim(ts[i].sh, k) = RemoveDim(ts[1].sh, k)
(* which operand holds position p of the joined axis, and where inside it *)
RECURSIVE Locate(_, _, _, _)
Locate(ts, k, i, p) == IF p < Dim(ts[i].sh, k) THEN <<i, p>>
                       ELSE Locate(ts, k, i + 1, p - Dim(ts[i].sh, k))
Concat(ts, k) ==
  LET n == Sum([i \in DOMAIN ts |-> Dim(ts[i].sh, k)])
      loc == TLCEval([p \in 1..n |-> Locate(ts, k, 1, p - 1)])
  IN Build(SetDim(ts[1].sh, k, n),
           LAMBDA ix : LET q == loc[ix[k+1] + 1]
                       IN At(ts[q[1]], SetDim(ix, k, q[2])))
Stack(ts, k) ==
  Build(InsertDim(ts[1].sh, k, Len(ts)),
        LAMBDA ix : At(ts[ix[k+1] + 1], RemoveDim(ix, k)))
SameShapes(ts) == \A i \in DOMAIN ts : ts[i].sh = ts[1].sh

Piece(t, k, from, to) ==        \* positions from..to-1 of axis k
  Build(SetDim(t.sh, k, to - from),
        LAMBDA ix : At(t, SetDim(ix, k, ix[k+1] + from)))
Pieces(t, k, cuts) ==           \* cuts: non-decreasing, last one = Dim
  LET ps == [i \in 1..Len(cuts) |->
               [from |-> IF i = 1 THEN 0 ELSE cuts[i-1], to |-> cuts[i]]]
      ne == SelectSeq(ps, LAMBDA p : p.from < p.to)
  IN [i \in 1..Len(ne) |-> Piece(t, k, ne[i].from, ne[i].to)]
SplitN(t, k, n) == LET w == Dim(t.sh, k) \div n
                   IN Pieces(t, k, [i \in 1..n |-> i * w])
Ordered(c) == \A i \in 1..(Len(c) - 1) : c[i] <= c[i+1]
CutsOk(t, k, cuts) == Ordered(Append(cuts, Dim(t.sh, k)))
Unstack(t, k) ==
  [j \in 1..Dim(t.sh, k) |->
     Build(RemoveDim(t.sh, k), LAMBDA ix : At(t, InsertDim(ix, k, j - 1)))]

Transpose(t) ==
  IF Rank(t) = 1 THEN Ten(Append(t.sh, 1), t.v)
  ELSE LET r == Rank(t)
           swap(s) == [s EXCEPT ![r] = s[r-1], ![r-1] = s[r]]
       IN Build(swap(t.sh), LAMBDA ix : At(t, swap(ix)))

Tile(t, m) ==
  LET r == MaxI(Rank(t), Len(m))
      pad(s) == [i \in 1..r |-> IF i <= r - Len(s) THEN 1 ELSE s[i - (r - Len(s))]]
      ps == pad(t.sh)
      pm == pad(m)
  IN Build([i \in 1..r |-> ps[i] * pm[i]],
           LAMBDA ix : At(t, TailFrom([i \in 1..r |-> ix[i] % ps[i]], Rank(t))))

(***************************************************************************)
(* Pattern matrices (numeric labels)                                       *)
(***************************************************************************)
Eye(n) == IF n = 0 THEN Scalar(0)      \* the library's documented convention
          ELSE Build(<<n, n>>, LAMBDA ix : IF ix[1] = ix[2] THEN 1 ELSE 0)
Tri(n) == Build(<<n, n>>, LAMBDA ix : IF ix[2] <= ix[1] THEN 1 ELSE 0)
RC(ix) == <<ix[Len(ix) - 1], ix[Len(ix)]>>
Tril(t) == Build(t.sh, LAMBDA ix : IF RC(ix)[2] <= RC(ix)[1] THEN At(t, ix) ELSE 0)
Triu(t) == Build(t.sh, LAMBDA ix : IF RC(ix)[1] <= RC(ix)[2] THEN At(t, ix) ELSE 0)
Diagflat(t) == Build(<<Len(t.v), Len(t.v)>>,
                     LAMBDA ix : IF ix[1] = ix[2] THEN t.v[ix[1] + 1] ELSE 0)
OneHot(is, depth) ==
  Vector([i \in 1..depth |-> IF \E j \in DOMAIN is : is[j] = i - 1 THEN 1 ELSE 0])
Meshgrid(ts, xy) ==     \* xy: first axis varies fastest (columns)
  LET n == Len(ts)
      sh == [i \in 1..n |-> IF xy THEN Len(ts[n + 1 - i].v) ELSE Len(ts[i].v)]
  IN [k \in 1..n |->
        Build(sh, LAMBDA ix : ts[k].v[(IF xy THEN ix[n + 1 - k] ELSE ix[k]) + 1])]

(***************************************************************************)
(* Nested data: Nest(d, x): x is nested d deep; first elements give shape. *)
(***************************************************************************)
RECURSIVE NestShape(_, _)
NestShape(d, x) == IF d = 0 THEN <<>> ELSE <<Len(x)>> \o NestShape(d - 1, x[1])
RECURSIVE NestFits(_, _, _)
NestFits(d, x, sh) ==
  IF d = 0 THEN TRUE
  ELSE /\ Len(x) = sh[1]
       /\ \A i \in DOMAIN x : NestFits(d - 1, x[i], Tail(sh))
RECURSIVE NestFlat(_, _)
NestFlat(d, x) == IF d = 0 THEN <<x>>
                  ELSE FoldLeft(LAMBDA acc, y : acc \o NestFlat(d - 1, y), <<>>, x)

ListSum(ts) == FoldLeft(LAMBDA acc, t : acc \o t.v, <<>>, ts)

(* squeeze keeps at least one dimension *)
SqueezeAll(sh) == IF NonUnit(sh) = <<>> THEN <<1>> ELSE NonUnit(sh)
SqueezeAxis(sh, k) ==
  IF Dim(sh, k) # 1 THEN sh
  ELSE IF Len(sh) = 1 THEN <<1>> ELSE RemoveDim(sh, k)

(***************************************************************************)
(* Printed form as a token list: brackets and elements.                    *)
(***************************************************************************)
RECURSIVE PrintTok(_, _)
PrintTok(sh, v) ==
  IF sh = <<>> THEN <<v[1]>>
  ELSE LET n == sh[1]
           w == IF n = 0 THEN 0 ELSE Len(v) \div n
       IN <<"[">> \o
          FoldLeft(LAMBDA acc, i : acc \o PrintTok(Tail(sh), SubSeq(v, (i-1)*w+1, i*w)),
                   <<>>, [i \in 1..n |-> i])
          \o <<"]">>

(***************************************************************************)
(* Sem(e, A): the meaning of request e on argument values A.               *)
(***************************************************************************)
SemCons(e, A) ==
  CASE e.op = "from_scalar" -> Ok1(Scalar(e.v[1]))
    [] e.op \in {"from_vec", "from_box"} ->
         Guard(Len(e.sh) <= MaxRank /\ Size(e.sh) = Len(e.v), Ok1(Ten(e.sh, e.v)))
    [] e.op = "from_vec_big" ->      \* dimensions hi[k] * 2^32 + sh[k]: never the length of v
         Guard((\A k \in DOMAIN e.hi : e.hi[k] = 0) /\ Size(e.sh) = Len(e.v), Ok1(Ten(e.sh, e.v)))
    [] e.op = "from" -> Ok1(Vector(e.v))
    [] e.op = "opt" -> Ok1(IF e.v = <<>> THEN Ten(<<0>>, <<>>) ELSE Scalar(e.v[1]))
    [] e.op = "rows_c" -> Ok1(Ten(e.sh, e.v))      \* fixed-size nested arrays
    [] e.op = "nested" ->
         LET sh == NestShape(e.depth, e.nest)
         IN Guard(NestFits(e.depth, e.nest, sh), Ok1(Ten(sh, NestFlat(e.depth, e.nest))))
    [] e.op = "join" -> Ok1(Vector(NestFlat(2, e.nest)))
    [] e.op = "merge" ->
         Guard(Len(e.sh) <= MaxRank /\ Size(e.sh) = Len(ListSum(A)), Ok1(Ten(e.sh, ListSum(A))))
    [] e.op = "tensors" ->
         Guard(SameShapes(A) /\ Rank(A[1]) < MaxRank,
               Ok1(Ten(<<Len(A)>> \o A[1].sh, ListSum(A))))
    [] e.op = "init" ->
         Guard(Len(e.sh) <= MaxRank, Ok1(Ten(e.sh, [i \in 1..Size(e.sh) |-> H2(e.s, i - 1)])))
    [] e.op = "init_rindexed" ->
         Guard(Len(e.sh) <= MaxRank, Ok1(Build(e.sh, LAMBDA ix : HFold(e.s, Reverse(ix)))))
    [] e.op = "fill" -> Guard(Len(e.sh) <= MaxRank, Ok1(Ten(e.sh, [i \in 1..Size(e.sh) |-> e.s])))
    [] OTHER -> [out |-> "unknown", res |-> <<>>]

ViewOps == {"clone", "subslice", "subslice_flat", "reshape", "flatten",
            "squeeze", "squeeze_axis", "expand_dims"}
SemView(e, A) ==
  LET t == A[1] IN
  CASE e.op = "clone" -> Ok1(t)
    [] e.op = "subslice" ->
         Guard(e.off + e.len <= Dim(t.sh, 0), Ok1(Piece(t, 0, e.off, e.off + e.len)))
    [] e.op = "subslice_flat" ->
         Guard(/\ e.off + e.len <= Len(t.v) /\ Len(e.sh) <= MaxRank
               /\ Size(e.sh) = e.len,
               Ok1(Ten(e.sh, SubSeq(t.v, e.off + 1, e.off + e.len))))
    [] e.op = "reshape" ->
         Guard(Len(e.sh) <= MaxRank /\ Size(e.sh) = Len(t.v), Ok1(Ten(e.sh, t.v)))
    [] e.op = "flatten" -> Ok1(Vector(t.v))
    [] e.op = "squeeze" -> Ok1(Ten(SqueezeAll(t.sh), t.v))
    [] e.op = "squeeze_axis" -> Ok1(Ten(SqueezeAxis(t.sh, Axis(e.axis, Rank(t))), t.v))
    [] e.op = "expand_dims" ->
         LET k == IF e.axis < 0 THEN e.axis + Rank(t) + 1 ELSE e.axis
         IN Guard(k >= 0 /\ k <= Rank(t) /\ Rank(t) < MaxRank,
                  Ok1(Ten(InsertDim(t.sh, k, 1), t.v)))

SemMap(e, A) ==
  LET t == A[1] IN
  CASE e.op = "map" -> Ok1(Map1(t, H1))
    [] e.op = "map2" -> Guard(BcOk(t.sh, A[2].sh), Ok1(Map2(t, A[2], H2)))
    [] e.op = "map3" -> Guard(Map3Ok(t, A[2], A[3]), Ok1(Map3(t, A[2], A[3], H3)))
    [] e.op = "map_row" -> Ok1(MapRow(t, e.n))
    [] e.op = "map_expand" -> Guard(Rank(t) < MaxRank, Ok1(MapExpand(t, e.n)))
    [] e.op = "xor" -> Guard(BcOk(t.sh, A[2].sh), Ok1(Map2(t, A[2], LAMBDA x, y : x ^^ y)))
    [] e.op = "xor_s" -> Ok1(Map1(t, LAMBDA x : x ^^ e.s))
    [] e.op = "not" -> Ok1(Map1(t, H1))

SemFold(e, A) ==
  LET t == A[1]
      k == Axis(e.axis, Rank(t))       \* only used when e.ax # "none"
      res(s) == H1(HFold(e.s, s))
      red(s) == HFold(s[1], Tail(s))
  IN
  CASE e.op = "fold" -> Ok1(FoldAll(t, res))
    [] e.op = "fold_axis" ->
         Ok1(IF e.ax = "none" THEN FoldAll(t, res) ELSE AlongAxis(t, k, res))
    [] e.op = "reduce" -> Guard(Len(t.v) > 0, Ok1(FoldAll(t, red)))
    [] e.op = "reduce_axis" ->
         Guard(Len(t.v) > 0, Ok1(IF e.ax = "none" THEN FoldAll(t, red) ELSE AlongAxis(t, k, red)))
    [] e.op = "fold_row" ->
         IF e.ax = "none" \/ Rank(t) = 1 THEN Ok1(FoldRowAll(t, e.n, e.s))
         ELSE Guard(k < Rank(t) - 1, Ok1(FoldRowAxis(t, k, e.n, e.s)))
    [] e.op = "normalize" ->
         Ok1(IF e.ax = "none" THEN NormAll(t, e.s) ELSE NormAxis(t, k, e.s))

SemArray(e, A) ==
  LET t == A[1] IN
  CASE e.op = "concat" ->
         LET k == IF e.ax = "none" THEN 0 ELSE Axis(e.axis, Rank(t))
         IN Guard(Rank(t) > 0 /\ ConcatOk(A, k), Ok1(Concat(A, k)))
    [] e.op = "append" -> Guard(Rank(t) > 0 /\ ConcatOk(A, 0), Ok1(Concat(A, 0)))
    [] e.op = "stack" ->
         LET k == IF e.ax = "none" THEN 0 ELSE Axis(e.axis, Rank(t) + 1)
         IN Guard(SameShapes(A) /\ Rank(t) < MaxRank, Ok1(Stack(A, k)))
    [] e.op = "vstack" -> Guard(SameShapes(A) /\ Rank(t) < MaxRank, Ok1(Stack(A, 0)))
    [] e.op = "hstack" ->
         LET k == IF Rank(t) = 1 THEN 0 ELSE 1
         IN Guard(Rank(t) > 0 /\ ConcatOk(A, k), Ok1(Concat(A, k)))
    [] e.op = "dstack" ->
         LET lift(u) == IF Rank(u) = 1 THEN Ten(<<1, u.sh[1], 1>>, u.v)
                        ELSE IF Rank(u) = 2 THEN Ten(Append(u.sh, 1), u.v) ELSE u
         IN Guard(Rank(t) > 0 /\ SameShapes(A),
                  Ok1(Concat([i \in DOMAIN A |-> lift(A[i])], 2)))
    [] e.op = "split" ->
         LET k == IF e.ax = "none" THEN 0 ELSE Axis(e.axis, Rank(t))
         IN Guard(e.n > 0 /\ Dim(t.sh, k) >= e.n /\ Dim(t.sh, k) % (IF e.n > 0 THEN e.n ELSE 1) = 0,
                  Ok(SplitN(t, k, e.n)))
    [] e.op = "split_at" ->
         LET k == IF e.ax = "none" THEN 0 ELSE Axis(e.axis, Rank(t))
         IN Guard(CutsOk(t, k, e.cuts), Ok(Pieces(t, k, Append(e.cuts, Dim(t.sh, k)))))
    [] e.op = "unstack" -> Ok(Unstack(t, Axis(e.axis, Rank(t))))
    [] e.op = "transpose" -> Ok1(Transpose(t))
    [] e.op = "tile" ->
         Guard(/\ \A i \in DOMAIN e.m : e.m[i] > 0
               /\ MaxI(Rank(t), Len(e.m)) <= MaxRank, Ok1(Tile(t, e.m)))

SemMatrix(e, A) ==
  CASE e.op = "eye" -> Ok1(Eye(e.n))
    [] e.op = "tri" -> Ok1(Tri(e.n))
    [] e.op = "zeros" -> Ok1(Ten(e.sh, [i \in 1..Size(e.sh) |-> 0]))
    [] e.op = "ones" -> Ok1(Ten(e.sh, [i \in 1..Size(e.sh) |-> 1]))
    [] e.op = "tril" -> Guard(Rank(A[1]) >= 2, Ok1(Tril(A[1])))
    [] e.op = "triu" -> Guard(Rank(A[1]) >= 2, Ok1(Triu(A[1])))
    [] e.op = "diagflat" -> Guard(Rank(A[1]) = 1, Ok1(Diagflat(A[1])))
    [] e.op = "meshgrid" -> Guard(\A i \in DOMAIN A : Rank(A[i]) = 1, Ok(Meshgrid(A, TRUE)))
    [] e.op = "meshgrid_ij" -> Guard(\A i \in DOMAIN A : Rank(A[i]) = 1, Ok(Meshgrid(A, FALSE)))
    [] e.op = "one_hot" ->
         Guard(\A j \in DOMAIN e.ix : e.ix[j] < e.n, Ok1(OneHot(e.ix, e.n)))
    [] e.op = "mgrid" ->
         Ok(Meshgrid(<<Vector([i \in 1..e.m |-> i - 1]), Vector([i \in 1..e.n |-> i - 1])>>, TRUE))

(* lexicographic comparison: -1, 0, 1 *)
(* 2: incomparable.  NaN labels an element that is not equal to, nor less   *)
(* nor greater than, any element including itself.                         *)
NaN == -777
Lex(a, b) ==
  LET n == MinI(Len(a), Len(b))
      d == TLCEval({i \in 1..n : a[i] # b[i] \/ a[i] = NaN})
  IN IF d = {} THEN (IF Len(a) = Len(b) THEN 0 ELSE IF Len(a) < Len(b) THEN -1 ELSE 1)
     ELSE LET i == Min(d) IN IF a[i] = NaN \/ b[i] = NaN THEN 2 ELSE IF a[i] < b[i] THEN -1 ELSE 1

SemRead(e, A) ==
  LET t == A[1]
      n == Len(t.v)
      wrap(o) == IF o < n THEN o ELSE o % n
  IN
  CASE e.op \in {"as_slice", "iter", "deref", "as_ref", "into_iter"} -> Val(t.v)
    [] e.op = "get" -> Val(IF e.i < n THEN <<t.v[e.i + 1]>> ELSE <<>>)
    [] e.op = "index" -> Guard(e.i < n, Val(t.v[e.i + 1]))
    [] e.op = "mindex" ->
         Guard(/\ Rank(t) >= Len(e.ix)
               /\ \A k \in DOMAIN e.ix : e.ix[k] < t.sh[k],
               Val(At(t, e.ix)))
    [] e.op = "rows" -> Val(IF Rank(t) > 1 THEN RowsOf(t) ELSE [i \in 1..n |-> <<t.v[i]>>])
    [] e.op = "wrap_slice" -> Val(Suffix(t.v, wrap(e.i)))
    [] e.op = "wrap_ptr" -> Val(t.v[wrap(e.i) + 1])      \* the caller guarantees a non-empty tensor
    [] e.op = "wrap_slice_n" ->
         Guard(wrap(e.i) + e.n <= n, Val(SubSeq(t.v, wrap(e.i) + 1, wrap(e.i) + e.n)))
    [] e.op = "debug" -> Val([tok |-> PrintTok(t.sh, t.v), sh |-> t.sh])
    [] e.op = "query" ->
         Val([rank |-> Rank(t), size |-> n, dims |-> t.sh, rdims |-> Reverse(t.sh),
              len |-> IF Rank(t) > 0 THEN t.sh[1] ELSE -1,
              cols |-> IF Rank(t) > 0 THEN LastDim(t.sh) ELSE 0,
              rows |-> IF Rank(t) > 1 THEN t.sh[Rank(t) - 1] ELSE 0])
    [] e.op = "eq" -> Val(t.sh = A[2].sh /\ t.v = A[2].v /\ \A i \in DOMAIN t.v : t.v[i] # NaN)
    [] e.op = "cmp" -> Val(Lex(t.v, A[2].v))

ConsOps == {"from_scalar", "from_vec", "from_vec_big", "from_box", "from", "opt", "rows_c", "nested", "join",
            "merge", "tensors", "init", "init_rindexed", "fill"}
MapOps == {"map", "map2", "map3", "map_row", "map_expand", "xor", "xor_s", "not"}
FoldOps == {"fold", "fold_axis", "reduce", "reduce_axis", "fold_row", "normalize"}
ArrayOps == {"concat", "append", "stack", "vstack", "hstack", "dstack", "split", "split_at",
             "unstack", "transpose", "tile"}
MatrixOps == {"eye", "tri", "zeros", "ones", "tril", "triu", "diagflat", "meshgrid",
              "meshgrid_ij", "one_hot", "mgrid"}
ReadOps == {"as_slice", "iter", "deref", "as_ref", "into_iter", "get", "index", "mindex", "rows",
            "wrap_slice", "wrap_slice_n", "wrap_ptr", "debug", "query", "eq", "cmp"}

Sem(e, A) ==
  IF e.op \in ViewOps THEN SemView(e, A)
  ELSE IF e.op \in MapOps THEN SemMap(e, A)
  ELSE IF e.op \in FoldOps THEN SemFold(e, A)
  ELSE IF e.op \in ArrayOps THEN SemArray(e, A)
  ELSE IF e.op \in MatrixOps THEN SemMatrix(e, A)
  ELSE IF e.op \in ReadOps THEN SemRead(e, A)
  ELSE IF e.op = "drop" THEN Ok(<<>>)
  ELSE SemCons(e, A)

(***************************************************************************)
(* How often the caller's function is called by an accepted request, and   *)
(* (for maps and initialisers) the values it returns, in call order.       *)
(***************************************************************************)
Groups(e, t) == IF e.ax = "none" THEN 1
                ELSE Size(RemoveDim(t.sh, Axis(e.axis, Rank(t))))
CallOps == {"init", "init_rindexed", "map", "map2", "map3", "map_row", "map_expand",
            "fold", "fold_axis", "fold_row", "reduce", "reduce_axis", "normalize"}
Calls(e, A) ==
  CASE e.op \in {"init", "init_rindexed"} -> Size(e.sh)
    [] e.op \in {"map", "map_expand", "fold", "fold_axis", "normalize"} -> Len(A[1].v)
    [] e.op = "map2" -> Size(BcShape(A[1].sh, A[2].sh))
    [] e.op = "map3" -> Size(BcShape(BcShape(A[1].sh, A[2].sh), A[3].sh))
    [] e.op \in {"map_row", "fold_row"} -> Len(A[1].v) \div LastDim(A[1].sh)
    [] e.op = "reduce" -> Len(A[1].v) - 1
    [] e.op = "reduce_axis" -> Len(A[1].v) - Groups(e, A[1])
    [] OTHER -> 0
OrderedOps == {"init", "init_rindexed", "map", "map2", "map3", "map_row", "map_expand"}

(***************************************************************************)
(* Full meaning: a request may carry pan = k > 0 (the caller's function    *)
(* panics at its k-th call), which interrupts any request reaching it.     *)
(***************************************************************************)
Has(e, f) == f \in DOMAIN e
Interrupted(e, A) == Has(e, "pan") /\ e.pan > 0 /\ e.op \in CallOps /\ Calls(e, A) >= e.pan
Meaning(e, A) ==
  LET m == Sem(e, A)
  IN IF m.out = "ok" /\ Interrupted(e, A) THEN Rej ELSE m
=============================================================================
