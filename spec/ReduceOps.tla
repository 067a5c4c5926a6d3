------------------------------ MODULE ReduceOps ------------------------------
(***************************************************************************)
(* Numeric reductions over a group of values off + q/4 (q small integers), *)
(* judged by their definitions: the reported value r must satisfy the      *)
(* defining equation in exact arithmetic up to the rounding tolerance.     *)
(***************************************************************************)
EXTENDS TensorOps, Fix
QSum(g) == Sum(g)
QSq(g) == FoldLeft(LAMBDA a, x : a + x * x, 0, g)
QMin(g) == FoldLeft(LAMBDA a, x : MinI(a, x), g[1], g)
QMax(g) == FoldLeft(LAMBDA a, x : MaxI(a, x), g[1], g)
(* q/4 as a fixed-point number *)
Q(i) == Shl_(Int_(i), FB - 2)
QQ(i) == Shl_(Int_(i), FB - 4)          \* i/16
(* the group's values for an offset *)
OffQ(off, q) == Add_(Fx(off), Q(q))
(* n * sum of squares - (sum)^2, in units 1/16 *)
Spread(g) == Len(g) * QSq(g) - QSum(g) * QSum(g)
LProdQ(g) == FoldLeft(LAMBDA a, x : Mul_(a, Int_(x)), Int_(1), g)

Holds(op, off, g, r) ==
  LET n == Len(g) IN
  CASE op = "sum"  -> Near(r, Add_(Mul_(Fx(off), Int_(n)), Q(QSum(g))), 18, 64)
    [] op = "product" -> Near(r, Shl_(LProdQ(g), FB), 18, 64)            \* integers: q itself, off = 0
    [] op = "min"  -> r = OffQ(off, QMin(g))
    [] op = "max"  -> r = OffQ(off, QMax(g))
    [] op = "mean" -> Near(Mul_(r, Int_(n)), Add_(Mul_(Fx(off), Int_(n)), Q(QSum(g))), 17, 64 * n)
    [] op = "variance" -> Near(Mul_(r, Int_(n * n)), QQ(Spread(g)), IF off = 0 THEN 14 ELSE 6, 256 * n * n)
    [] op = "std"  -> ~r.n /\ Near(Mul_(FxMul(r, r), Int_(n * n)), QQ(Spread(g)), IF off = 0 THEN 13 ELSE 5, 512 * n * n)
    [] op = "hypot" -> ~r.n /\ Near(FxMul(r, r), QQ(QSq(g)), 14, 256)
(* the same over a group that is g repeated k times: long groups, judged on the pattern (looser: long sums round) *)
HoldsRep(op, off, g, k, r) ==
  LET n == Len(g)
      sum == Mul_(Add_(Mul_(Fx(off), Int_(n)), Q(QSum(g))), Int_(k))
  IN
  CASE op = "sum"  -> Near(r, sum, 12, 64 * k)
    [] op = "min"  -> r = OffQ(off, QMin(g))
    [] op = "max"  -> r = OffQ(off, QMax(g))
    [] op = "mean" -> Near(Mul_(r, Int_(n)), Add_(Mul_(Fx(off), Int_(n)), Q(QSum(g))), 10, 16384 * n)
    [] op = "variance" -> Near(Mul_(r, Int_(n * n)), QQ(Spread(g)), 5, 65536 * n * n)
    [] op = "std"  -> ~r.n /\ Near(Mul_(FxMul(r, r), Int_(n * n)), QQ(Spread(g)), 4, 65536 * n * n)
    [] op = "hypot" -> ~r.n /\ Near(FxMul(r, r), Mul_(QQ(QSq(g)), Int_(k)), 6, 65536)
(* groups holding infinities: PInf, NInf; r is the reported value with its class *)
PInf == 900001
NInf == -900001
HasInf(g) == \E i \in DOMAIN g : g[i] \in {PInf, NInf}
HoldsInf(op, g, r) ==
  LET p == \E i \in DOMAIN g : g[i] = PInf  m == \E i \in DOMAIN g : g[i] = NInf  fin == SelectSeq(g, LAMBDA x : x \notin {PInf, NInf})
      Cls(b) == r.b = b  Q1(x) == Finite(r) /\ Of(r) = Q(x)
  IN CASE op \in {"sum", "mean"} -> Cls(IF p /\ m THEN "nan" ELSE IF p THEN "inf" ELSE "-inf")
       [] op = "min" -> IF m THEN Cls("-inf") ELSE IF fin = <<>> THEN Cls("inf") ELSE Q1(QMin(fin))
       [] op = "max" -> IF p THEN Cls("inf") ELSE IF fin = <<>> THEN Cls("-inf") ELSE Q1(QMax(fin))
       [] op = "hypot" -> Cls("inf")
(* unit normalisation of element q within group g: 0 at the minimum, 1 at the maximum, linear between *)
UnitHolds(off, g, q, r) ==
  LET lo == QMin(g)  hi == QMax(g)
  IN /\ Near(Mul_(r, Int_(hi - lo)), Fx(q - lo), IF off = 0 THEN 16 ELSE 9, 64 * (hi - lo))
     /\ q = lo => r = Zero_
     /\ q = hi => r = Fx(1)
=============================================================================
