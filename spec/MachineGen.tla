----------------------------- MODULE MachineGen -----------------------------
(***************************************************************************)
(* Runs the tensor machine (with canonical placement) over                 *)
(*   - every bounded-exhaustive case of the focus property (Cases.tla),    *)
(*   - NHIST pseudo-random histories of NSTEP requests each, whose         *)
(*     requests are chosen depending on the current state (so that         *)
(*     aliasing, views of views, operands that fit, and requests that are  *)
(*     just out of range all occur),                                       *)
(* checks the machine's own properties on every step, and writes every     *)
(* history as a request list to the file OUT for execution by the harness. *)
(***************************************************************************)
EXTENDS Cases, Emit

Focus == IOEnv.FOCUS
NHist == atoi(IOEnv.NHIST)
NStep == atoi(IOEnv.NSTEP)
CaseList == Cases(Focus)
NCase == Len(CaseList)
Stride_ == atoi(IOEnv.CSTRIDE)            \* take every CSTRIDE-th case ...
Offset_ == Seed % Stride_                 \* ... starting from a seed-dependent one

HB == 10000000                            \* history ids beyond this are random histories
RNR == 6                                  \* registers of a random history

(***************************************************************************)
(* Random requests                                                         *)
(***************************************************************************)
Grp(f) ==
  LET cons == <<"from_vec", "from_vec", "from_box", "from", "init", "init_rindexed", "fill", "from_scalar", "rows_c", "opt", "nested">>
      view == <<"clone", "clone", "subslice", "subslice", "subslice_flat", "subslice_flat", "reshape", "flatten", "squeeze", "squeeze_axis", "expand_dims">>
      maps == <<"map", "map2", "map2", "map3", "map_row", "map_expand", "xor", "xor_s", "not">>
      folds == <<"fold", "fold_axis", "reduce", "reduce_axis", "fold_row", "normalize">>
      arrs == <<"concat", "append", "stack", "vstack", "hstack", "dstack", "split", "split_at", "unstack", "transpose", "tile", "merge">>
      mats == <<"eye", "tri", "tril", "triu", "diagflat", "meshgrid", "meshgrid_ij", "zeros">>
      reads == <<"as_slice", "iter", "deref", "get", "index", "mindex", "rows", "wrap_slice", "wrap_slice_n", "debug", "query", "eq", "cmp">>
      drops == <<"drop", "drop", "drop">>
  IN CASE f = "C01" -> << cons, cons, view, view, view, maps, maps, folds, arrs, arrs, arrs, mats, drops, drops >>
       [] f = "C03" -> << cons, view, view, maps, maps, maps, folds, arrs, arrs, mats, reads, drops >>
       [] f = "C04" -> << cons, view, view, view, view, view, arrs, reads, drops >>
       [] f = "C05" -> << cons, view, view, view, arrs, reads, reads, reads, reads, reads, reads >>
       [] f = "C06" -> << cons, cons, cons, cons, cons, view, arrs, drops >>
       [] f = "C08" -> << cons, view, view, maps, maps, maps, maps, maps, arrs >>
       [] f \in {"C10", "C12"} -> << cons, view, view, folds, folds, folds, folds, arrs >>
       [] f \in {"C13", "C14", "C15"} -> << cons, view, view, arrs, arrs, arrs, arrs, arrs, drops >>
       [] f = "C16" -> << cons, view, view, mats, mats, mats, mats, drops >>
       [] f = "C27" -> << cons, view, view, view, arrs, <<"eq", "eq", "cmp">>, <<"eq", "cmp">>, <<"eq">>, maps >>
       [] OTHER -> << cons, view, maps, folds, arrs, mats, reads, drops >>

MaxSize == 48
Pool == << <<2>>, <<3>>, <<2, 3>>, <<3, 2>>, <<4>>, <<2, 2>>, <<1, 3>>, <<2, 1, 3>>, <<2, 3, 2>>, <<6>>, <<3, 1>>, <<1>>, <<2, 2, 1, 2>>, <<1, 2, 3, 1>>, <<12>>, <<2, 1, 2, 1, 3>>, <<5, 2>> >>

NeedsArg(op) == op \notin {"from_vec", "from_box", "from", "init", "init_rindexed", "fill", "from_scalar", "rows_c", "opt", "nested", "eye", "tri", "zeros"}
NumOp(op) == op \in {"eye", "tri", "zeros", "tril", "triu", "diagflat", "meshgrid", "meshgrid_ij"}
OpFits(op, t, ty) ==        \* op may be asked of a tensor t of this element type
  /\ (NumOp(op) => ty \notin {"str", "wide"})
  /\ (op = "not" => ty \in {"elem", "thin"})
  /\ (op \in {"xor", "xor_s"} => ty \in {"elem", "thin", "i32", "u64", "b3"})
  /\ (op \in {"squeeze_axis", "subslice", "fold_axis", "reduce_axis", "fold_row", "normalize", "concat", "append", "hstack", "dstack",
              "split", "split_at", "unstack", "transpose", "map_row", "rows", "tril", "triu", "diagflat", "meshgrid", "meshgrid_ij"} => t.sh # <<>>)
  /\ (Len(t.v) = 0 => op \in {"clone", "as_slice", "iter", "get", "drop", "eq", "map", "debug", "query", "flatten"})
  /\ (op = "mindex" => Len(t.sh) \in 2..5)
  /\ (op \in {"tile", "stack", "vstack", "map_expand", "concat", "append", "hstack", "dstack", "merge"} => Len(t.v) <= 16)
  /\ (op \in {"tile"} => Len(t.sh) > 0)
  /\ (op = "diagflat" => Len(t.v) <= 6)
  /\ (op \in {"meshgrid", "meshgrid_ij"} => Len(t.v) <= 4)

Rest(op, c, t) ==           \* parameters of op on a tensor t
  LET r == Len(t.sh)
      n == Len(t.v)
      k == RN(c, 31, MaxI(r, 1))
      axr == [ax |-> RS(c, 32, <<"axis", "into", "opt">>), axis |-> IF RP(c, 33, 50) THEN k ELSE k - r]
      axo == IF RP(c, 34, 25) THEN [ax |-> "none", axis |-> 0] ELSE axr
      frm(m) == [form |-> RN(c, 35, m)]
      d0 == IF r = 0 THEN 1 ELSE t.sh[1]
      dk == IF r = 0 THEN 1 ELSE t.sh[k + 1]
      pan == IF op \in CallOps /\ RP(c, 36, 12) THEN [pan |-> RN(c, 37, n + 2) + 1] ELSE <<>>
  IN pan @@ (
  CASE op = "clone" -> frm(2)
    [] op = "subslice" -> [off |-> RN(c, 38, d0), len |-> RN(c, 39, d0) + 1]
    [] op = "subslice_flat" ->
         LET o == RN(c, 38, n + 1)
             m == IF RP(c, 40, 10) THEN n - o + 1 ELSE MaxI(1, RN(c, 39, n - o + 1))
         IN [off |-> o, len |-> m, sform |-> RN(c, 41, 4),
             sh |-> RS(c, 42, << <<m>>, <<m>>, IF m % 2 = 0 THEN <<2, m \div 2>> ELSE <<1, m>>, IF m % 3 = 0 THEN <<3, 1, m \div 3>> ELSE <<m, 1>>, <<m + 1>> >>)]
    [] op = "reshape" -> [sh |-> IF RP(c, 43, 4) THEN [q \in 1..(MaxRank + 1) |-> IF q <= r THEN t.sh[q] ELSE 1] ELSE RS(c, 42, ReShapes(t.sh)), sform |-> RN(c, 41, 4)]
    [] op = "squeeze_axis" -> axr
    [] op = "expand_dims" -> [ax |-> "axis", axis |-> RN(c, 38, 2 * r + 3) - r - 1]
    [] op = "map_row" -> [n |-> RN(c, 38, 4) + 1]
    [] op = "map_expand" -> [n |-> RN(c, 38, 3) + 1]
    [] op = "xor_s" -> [s |-> RN(c, 38, 1000)]
    [] op = "fold" -> [s |-> RN(c, 38, 1000)]
    [] op = "reduce" -> [form |-> 0]
    [] op = "fold_axis" -> axo @@ [s |-> RN(c, 38, 1000)]
    [] op = "reduce_axis" -> axo
    [] op = "fold_row" -> axo @@ [s |-> RN(c, 38, 1000), n |-> RN(c, 39, 4) + 1]
    [] op = "normalize" -> axo @@ [s |-> RN(c, 38, 1000)]
    [] op = "concat" -> axo @@ frm(15)
    [] op \in {"vstack", "hstack", "dstack"} -> frm(15)
    [] op = "stack" -> frm(15) @@ (LET q == RN(c, 31, r + 1) IN IF RP(c, 34, 25) THEN [ax |-> "none", axis |-> 0]
                                   ELSE [ax |-> "axis", axis |-> IF RP(c, 33, 50) THEN q ELSE q - r - 1])
    [] op = "append" -> frm(2)
    [] op = "split" -> axr @@ frm(2) @@ [n |-> RN(c, 38, dk + 2)]
    [] op = "split_at" -> axr @@ frm(5) @@ [cuts |-> RS(c, 38, CutLists(dk))]
    [] op = "unstack" -> axr
    [] op = "transpose" -> frm(4)
    [] op = "tile" -> frm(5) @@ [m |-> RS(c, 38, << <<2>>, <<1, 2>>, <<2, 1>>, <<1>>, <<2, 1, 2>>, <<3>>, <<0, 1>> >>)]
    [] op = "get" -> [i |-> RN(c, 38, n + 2)]
    [] op = "index" -> [i |-> RN(c, 38, n + 2)]
    [] op = "mindex" -> [ix |-> [j \in 1..r |-> RN(c, 50 + j, t.sh[j]) + (IF RP(c, 60 + j, 5) THEN 1 ELSE 0)]]
    [] op = "wrap_slice" -> [i |-> RN(c, 38, 2 * n + 2)]
    [] op = "wrap_slice_n" -> [i |-> RN(c, 38, 2 * n + 2), n |-> RN(c, 39, n + 1) + 1]
    [] op \in {"meshgrid", "meshgrid_ij"} -> frm(2)
    [] OTHER -> [form |-> 0])

Multi == {"split", "split_at", "unstack", "meshgrid", "meshgrid_ij"}
RegsOf(s) == SelectSeq(Upto(RNR), LAMBDA r : ~ IsNull(s.regs[r]))
Free(s) == SelectSeq(Upto(RNR), LAMBDA r : IsNull(s.regs[r]))

(* shape for a new tensor: often one that fits something live *)
NewShape(s, c) ==
  LET L == RegsOf(s)
      q == s.regs[RS(c, 70, L)].sh
  IN IF L = <<>> \/ RP(c, 71, 45) THEN RS(c, 72, Pool)
     ELSE IF Size(q) > MaxSize \/ Size(q) = 0 \/ q = <<>> THEN RS(c, 72, Pool)
     ELSE IF RP(c, 73, 60) THEN q ELSE IF RP(c, 74, 70) THEN Suffix(q, RN(c, 75, Len(q))) ELSE SetDim(q, 0, q[1] + 1)
(* the same elements with more dimensions than a shape can have *)
Pad7(sh) == [k \in 1..(MaxRank + 1) |-> IF k <= Len(sh) THEN sh[k] ELSE 1]
ConsReq(op, s, c) ==
  LET sh0 == NewShape(s, c)
      sh == IF op \in {"from_vec", "from_box", "init", "init_rindexed", "fill"} /\ RP(c, 78, 5) THEN Pad7(sh0) ELSE sh0
      b == RN(c, 76, 900) * 100
      n == Size(sh)
      wrong == RP(c, 77, 8)
      pan == IF op \in CallOps /\ RP(c, 36, 15) THEN [pan |-> RN(c, 37, n + 2) + 1] ELSE <<>>
      sq == IF sh = <<>> THEN <<2, 3>> ELSE IF Len(sh) = 1 THEN <<2, MinI(sh[1], 4)>> ELSE <<MinI(sh[1], 3), MinI(sh[2], 4)>>
  IN pan @@ (
  CASE op \in {"from_vec", "from_box"} -> [sh |-> sh, sform |-> RN(c, 41, 4), v |-> Seqv(b, IF wrong THEN n + 1 ELSE n)]
    [] op = "from" -> [form |-> RN(c, 35, 7), v |-> Seqv(b, n)]
    [] op \in {"init", "init_rindexed"} -> [sh |-> sh, sform |-> RN(c, 41, 4), s |-> RN(c, 38, 1000)]
    [] op = "fill" -> LET f == RN(c, 35, 3) IN [sh |-> sh, sform |-> RN(c, 41, 4), form |-> f, s |-> IF f = 2 THEN 0 ELSE RN(c, 38, 1000)]
    [] op = "from_scalar" -> [form |-> RN(c, 35, 3), v |-> <<b>>]
    [] op = "opt" -> [v |-> IF RP(c, 38, 30) THEN <<>> ELSE <<b>>]
    [] op = "rows_c" -> [form |-> RN(c, 35, 4), sh |-> sq, v |-> Seqv(b, Size(sq))]
    [] op = "nested" -> [depth |-> 2, form |-> 0,
                         nest |-> IF wrong THEN Spoil(NestOf(sq, b, 1), 1, TRUE) ELSE NestOf(sq, b, 1)]
    [] op \in {"eye", "tri"} -> [n |-> RN(c, 38, 4) + 1, form |-> RN(c, 35, 2)]
    [] op = "zeros" -> [sh |-> sh, form |-> RN(c, 35, 2)])

(* operand registers after the first *)
Others(op, s, c, r1) ==
  LET L == RegsOf(s)
      t == Den(s, r1)
      good(r) == LET u == Den(s, r) IN
        /\ Len(u.v) <= 16 /\ Len(u.v) > 0
        /\ CASE op \in {"map2", "map3", "xor"} -> BcOk(t.sh, u.sh)
             [] op \in {"concat", "append", "hstack"} -> u.sh # <<>> /\ Len(u.sh) = Len(t.sh) /\ Tail(u.sh) = Tail(t.sh)
             [] op \in {"stack", "vstack", "dstack", "eq", "cmp"} -> u.sh = t.sh
             [] op \in {"meshgrid", "meshgrid_ij"} -> Len(u.sh) = 1 /\ Len(u.v) <= 4
             [] OTHER -> TRUE
      (* outside the specified domain *)
      bad(r) == LET u == Den(s, r) IN
        \/ op \in {"map2", "map3", "xor"} /\ Len(u.v) = 0
        \/ op \in {"concat", "append", "hstack", "dstack"} /\ (u.sh = <<>> \/ Len(u.v) = 0 \/ Tail(u.sh) # Tail(t.sh))
        \/ op \in {"stack", "vstack"} /\ Len(u.v) = 0
        \/ op = "cmp" /\ u.sh # t.sh
        \/ op \in {"meshgrid", "meshgrid_ij"} /\ (Len(u.v) > 4 \/ u.sh = <<>>)
        \/ op \in {"merge"} /\ Len(u.v) > 16
      g == SelectSeq(L, good)
      ok == SelectSeq(L, LAMBDA r : ~ bad(r))
      pick(k) == IF g # <<>> /\ RP(c, 80 + k, 85) THEN RS(c, 90 + k, g) ELSE RS(c, 100 + k, ok)
      n == CASE op \in {"map2", "xor", "append", "eq", "cmp"} -> 1
             [] op = "map3" -> 2
             [] op \in {"concat", "stack", "vstack", "dstack", "hstack", "merge"} -> RN(c, 110, 3)
             [] op \in {"meshgrid", "meshgrid_ij"} -> RN(c, 110, 3)
             [] OTHER -> 0
  IN IF ok = <<>> THEN (IF n = 0 THEN <<>> ELSE IF op = "map3" THEN <<r1, r1>> ELSE <<r1>>)
     ELSE [k \in 1..n |-> pick(k)]

RandReq(s, ty, c) ==
  LET L == RegsOf(s)
      few == Len(L) = 0 \/ (Len(L) < 2 /\ RP(c, 1, 60))
      g == RS(c, 2, Grp(Focus))
      consops == <<"from_vec", "init", "from", "rows_c", "fill", "init_rindexed">>
      op0 == IF few THEN RS(c, 3, consops) ELSE RS(c, 3, g)
      r1 == RS(c, 4, L)
      op == IF NeedsArg(op0) /\ ~ OpFits(op0, Den(s, r1), ty) THEN (IF RP(c, 5, 50) THEN "clone" ELSE "drop")
            ELSE IF ~ NeedsArg(op0) /\ NumOp(op0) /\ ty \in {"str", "wide"} THEN "from_vec" ELSE op0
      fr == Free(s)
      dst == IF fr # <<>> /\ RP(c, 6, 75) THEN RS(c, 7, fr) ELSE RN(c, 8, RNR) + 1
      dst2 == ((dst + RN(c, 9, RNR - 1)) % RNR) + 1
      cp == Focus \in {"C01", "C03"} /\ ty \in {"elem", "thin"} /\ RP(c, 10, 8)
  IN IF ~ NeedsArg(op) THEN ConsReq(op, s, c) @@ [op |-> op, a |-> <<>>, d |-> <<dst>>, own |-> <<>>]
     ELSE LET a == <<r1>> \o Others(op, s, c, r1)
              distinct == Cardinality(Range(a)) = Len(a)
              own == IF op \in ReadOps \/ ~ distinct THEN <<>>
                     ELSE SelectSeq(Upto(Len(a)), LAMBDA i : RP(c, 120 + i, 30))
              par == IF op = "merge"
                     THEN LET m == FoldLeft(LAMBDA acc, r : acc + Size(s.regs[r].sh), 0, a)
                          IN [sh |-> IF RP(c, 38, 10) THEN <<m + 1>> ELSE IF m % 2 = 0 THEN <<2, m \div 2>> ELSE <<m>>, sform |-> 0]
                     ELSE Rest(op, c, Den(s, r1))
              cpan == IF cp /\ op # "drop" THEN [cpan |-> RN(c, 11, 4) + 1] ELSE <<>>
          IN cpan @@ (par @@ [op |-> op, a |-> a,
               d |-> IF op \in ReadOps \cup {"drop"} \/ cp THEN <<>>
                     ELSE IF op \in Multi THEN <<dst, dst2>> ELSE <<dst>>,
               own |-> IF op = "drop" THEN <<>> ELSE own])

Types == IF Focus = "C01" THEN <<"elem", "elem", "thin", "thin", "wide", "str">> ELSE <<"elem", "i32", "elem", "f32", "str", "u64", "thin", "b3", "wide">>

(***************************************************************************)
(* The behaviour                                                           *)
(***************************************************************************)
VARIABLES hid, pos, st, hist
vars == <<hid, pos, st, hist>>
CaseIds == {j \in 1..NCase : j % Stride_ = Offset_ \/ Stride_ = 1}
Init == /\ pos = 0 /\ st = InitSt /\ hist = <<>>
        /\ hid \in CaseIds \cup ((HB + 1)..(HB + NHist))

(* one request of the machine, with the properties every step must have *)
StepOk(s, e, s2) ==
  LET m == Meaning(e, Args(s, e)) IN
  /\ Assert(m.out # "unknown", <<"no meaning", e>>)
  /\ Assert(InBounds(s2) /\ NoGarbage(s2), <<"machine invariant", e>>)
  /\ Assert(OnlyTouches(s, s2, e), <<"touches", e>>)
  /\ Assert(Denotes(s2, e, m), <<"denotes", e>>)
RECURSIVE RunAll(_, _)
RunAll(s, es) ==
  IF es = <<>> THEN s
  ELSE CHOOSE z \in {RunAll(s2, Tail(es)) : s2 \in {q \in {Run(s, es[1])} : StepOk(s, es[1], q)}} : TRUE

Emit(id, ty, nr, ev) == EmitRow([id |-> id, ty |-> ty, nr |-> nr, ev |-> ev])

CaseStep ==
  /\ hid <= HB /\ pos = 0
  /\ \E r \in {Realise(CaseList[hid], hid)} :
       \E s \in {RunAll(st, r.ev)} :
          \E fin \in {Append(r.ev, DropR(SelectSeq(Upto(CNR), LAMBDA q : ~ IsNull(s.regs[q]))))} :
             /\ Emit(hid, r.ty, r.nr, fin)
             /\ st' = InitSt /\ hist' = <<>>
  /\ pos' = 1 /\ hid' = hid
Ty == RS(<<Seed, hid, 99>>, 1, Types)
WalkStep ==
  /\ hid > HB /\ pos < NStep
  /\ \E e \in {RandReq(st, Ty, <<Seed, hid, pos>>)} :
       /\ st' = Run(st, e) /\ StepOk(st, e, st')
       /\ hist' = Append(hist, e)
  /\ pos' = pos + 1 /\ hid' = hid
WalkEnd ==
  /\ hid > HB /\ pos = NStep
  /\ Emit(hid, Ty, RNR, Append(hist, DropR(RegsOf(st))))
  /\ pos' = pos + 1 /\ hid' = hid /\ st' = InitSt /\ hist' = <<>>
Next == CaseStep \/ WalkStep \/ WalkEnd
=============================================================================
