------------------------------ MODULE RtenOps ------------------------------
(***************************************************************************)
(* Random tensors.  The options are a record built by a history of         *)
(* constructors and setters; a tensor of n elements consumes the seeded    *)
(* generator's stream in row-major order: element i = a + b * (i-th normal *)
(* draw), or a + max(0, b - a) * (i-th uniform draw).  Without a seed the  *)
(* generator is seeded by the thread's next draw (see SeedTrace).          *)
(***************************************************************************)
EXTENDS RandOps
Default == [a |-> 0, b |-> 8, s |-> <<>>, has |-> FALSE]     \* a, b in eighths
Build(o, e) ==
  CASE e.k = "a" -> [Default EXCEPT !.a = e.x]
    [] e.k = "b" -> [Default EXCEPT !.b = e.x]
    [] e.k \in {"seed", "some"} -> [Default EXCEPT !.s = e.s, !.has = TRUE]
    [] e.k \in {"default", "none"} -> Default
    [] e.k = "pair" -> [Default EXCEPT !.a = e.x, !.b = e.y]
    [] e.k = "wa" -> [o EXCEPT !.a = e.x]
    [] e.k = "wb" -> [o EXCEPT !.b = e.x]
    [] e.k = "ws" -> [o EXCEPT !.s = e.s, !.has = TRUE]
Options(steps) == FoldLeft(Build, Default, steps)
First64(e) == Output(64, Step(64, e))
(* the seed of the generator: given, or the first draw of a thread seeded by the element after the global seed g *)
SeedOf(o, g) == IF o.has THEN o.s ELSE First64(First64(g))
Eighth(i) == Shl_(Int_(i), FB - 3)
(* element = base + scale * draw, up to the roundings of single precision *)
Affine(el, base, scale, draw) ==
  LET p == FxMul(scale, draw)
      w == Add_(base, p)
      tol == LAdd(LAdd(LShr(LAdd(base.m, p.m), 21), LShr(scale.m, FB - 1)), <<16>>)
  IN el.b = "" /\ ~LLess(tol, Sub_(Of(el), w).m)
Outs(seed, n) == FoldLeft(LAMBDA a, k : LET s == Step(32, a[1]) IN <<s, Append(a[2], Output(32, s))>>, <<seed, <<>>>>, [k \in 1..n |-> k])[2]
Range_(o) == IF o.b > o.a THEN Eighth(o.b - o.a) ELSE Zero_
=============================================================================
