------------------------------ MODULE ShapeOps ------------------------------
(***************************************************************************)
(* Shapes as dimension lists (outermost first) and the edits and queries   *)
(* offered on them.  Products are limb numbers (Limbs.tla).                *)
(***************************************************************************)
EXTENDS TensorOps, Limbs

(* result of edit e on dimension list d: [ok, d] *)
Done(d) == [ok |-> TRUE, d |-> d]
No(d) == [ok |-> FALSE, d |-> d]
If(c, d, q) == IF c THEN Done(q) ELSE No(d)
RPos(d, i) == Len(d) - 1 - i              \* position counted from the inside
(* the largest dimension a shape can hold is 2^32 - 1; e.hi counts multiples of 2^32 *)
TooBig(e) == Has(e, "hi") /\ e.hi > 0
Edit(e, d) ==
  LET r == Len(d) IN
  IF TooBig(e) THEN No(d)
  ELSE
  CASE e.op \in {"with_dim", "replace"} -> If(e.i < r, d, IF e.i < r THEN SetDim(d, e.i, e.n) ELSE d)
    [] e.op = "rreplace" -> If(e.i < r, d, IF e.i < r THEN SetDim(d, RPos(d, e.i), e.n) ELSE d)
    [] e.op = "with_cols" -> If(r > 0, d, IF r > 0 THEN SetDim(d, r - 1, e.n) ELSE d)
    [] e.op = "with_rows" -> If(r > 1, d, IF r > 1 THEN SetDim(d, r - 2, e.n) ELSE d)
    [] e.op = "push" -> If(r < MaxRank, d, <<e.n>> \o d)
    [] e.op = "append" -> If(r + Len(e.s) <= MaxRank, d, Reverse(e.s) \o d)
    [] e.op = "expand_dims" ->
         LET k == IF e.i < 0 THEN e.i + r + 1 ELSE e.i
         IN If(k >= 0 /\ k <= r /\ r < MaxRank, d, IF k >= 0 /\ k <= r THEN InsertDim(d, k, 1) ELSE d)
    [] e.op = "squeeze" -> Done(SqueezeAll(d))
    [] e.op = "squeeze_axis" -> If(r > 0, d, IF r > 0 THEN SqueezeAxis(d, Axis(e.i, r)) ELSE d)
    [] e.op = "pop" -> If(r > 0, d, IF r > 0 THEN Tail(d) ELSE d)
    [] e.op = "remove" -> If(e.i < r, d, IF e.i < r THEN RemoveDim(d, e.i) ELSE d)
    [] e.op = "rremove" -> If(e.i < r, d, IF e.i < r THEN RemoveDim(d, RPos(d, e.i)) ELSE d)
    [] e.op = "reduce" -> Done(IF r > 1 THEN Front(d) ELSE IF r = 1 THEN <<1>> ELSE <<>>)
    [] e.op = "insert" -> If(e.i <= r /\ r < MaxRank, d, IF e.i <= r THEN InsertDim(d, e.i, e.n) ELSE d)
    [] e.op = "rinsert" -> If(e.i <= r /\ r < MaxRank, d, IF e.i <= r THEN InsertDim(d, r - e.i, e.n) ELSE d)
    [] e.op = "broadcast_to" -> If(BcOk(d, e.s), d, BcShape(d, e.s))
    (* a new shape replaces the current one *)
    [] e.op = "set" -> If(Len(e.s) <= MaxRank, d, e.s)
    [] e.op = "vector" -> If(e.n > 0, d, <<e.n>>)
    (* questions: the shape stays; the answer is Answer *)
    [] OTHER -> Done(d)

AskOps == {"broadcast", "check_broadcast", "broadcast_min", "axis_reduce", "axis_reduce_row", "axis_from_rank"}
(* [ok, val] of a question *)
Answer(e, d) ==
  LET r == Len(d)
      k == IF r = 0 THEN 0 ELSE Axis(e.i, r)
      cutD == SubSeq(d, 1, r - e.i)
      cutS == SubSeq(e.s, 1, Len(e.s) - e.n)
  IN
  CASE e.op = "broadcast" -> [ok |-> BcOk(d, e.s), val |-> LProd(BcShape(d, e.s))]
    [] e.op = "check_broadcast" -> [ok |-> BcOk(d, e.s), val |-> <<>>]
    [] e.op = "broadcast_min" ->    \* without the last i (of this) and n (of the other) dimensions
         [ok |-> BcOk(cutD, cutS), val |-> LProd(BcShape(cutD, cutS))]
    [] e.op = "axis_from_rank" -> [ok |-> TRUE, val |-> OfInt(k)]
    [] e.op = "axis_reduce" ->
         [ok |-> TRUE, val |-> IF e.ax = "none" THEN << <<>>, <<1>>, LProd(d), <<1>> >>
             ELSE << RemoveDim(d, k), LProd(SubSeq(d, 1, k)), OfInt(Dim(d, k)), LProd(Suffix(d, k + 1)) >>]
    [] e.op = "axis_reduce_row" ->  \* k is not the last axis; a row of n values per group
         [ok |-> TRUE, val |-> IF e.ax = "none" THEN << <<e.n>>, <<1>>, LProd(Front(d)), <<1>> >>
             ELSE << Append(RemoveDim(Front(d), k), e.n), LProd(SubSeq(d, 1, k)), OfInt(Dim(d, k)), LProd(SubSeq(d, k + 2, r - 1)) >>]

(* every query of a shape with dimension list d *)
Ask(d) ==
  LET r == Len(d) IN
  [vec |-> d, rank |-> r, size |-> LProd(d), dims |-> d, rdims |-> Reverse(d),
   idims |-> [k \in 1..(2 * r) |-> d[((k - 1) % r) + 1]],         \* idim(-r) .. idim(r-1)
   len |-> IF r > 0 THEN d[1] ELSE -1,
   cols |-> IF r > 0 THEN LastDim(d) ELSE 0, rows |-> IF r > 1 THEN d[r - 1] ELSE 0,
   batch |-> [k \in 1..(r + 2) |-> IF k - 1 < r THEN LProd(SubSeq(d, 1, r - (k - 1))) ELSE <<1>>],  \* without the last k-1
   sub |-> Flatten_([a \in 1..(r + 1) |-> [b \in 1..(r + 2 - a) |-> LProd(SubSeq(d, a, a + b - 2))]]),
   rsub |-> Flatten_([a \in 1..(r + 1) |-> [b \in 1..(r + 2 - a) |-> LProd(SubSeq(Reverse(d), a, a + b - 2))]]),
   same |-> TRUE, debug |-> d]
=============================================================================
