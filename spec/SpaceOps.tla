------------------------------ MODULE SpaceOps ------------------------------
(***************************************************************************)
(* Stepped ranges and spaced sequences.  Arguments are quarters (q/4).     *)
(* arange is exact (quarters are dyadic); the spaced sequences are judged  *)
(* by their definition: first point, last point, number of points and even *)
(* spacing in the respective scale, per entry of the endpoints.            *)
(***************************************************************************)
EXTENDS TensorOps, Fix
Q(i) == Shl_(Int_(i), FB - 2)
ArangeOk(s, e, st) == st # 0 /\ (s = e \/ (s < e) = (st > 0))
ArangeLen(s, e, st) == IF s = e THEN 0 ELSE LET d == IF e > s THEN e - s ELSE s - e  a == IF st > 0 THEN st ELSE -st IN (d + a - 1) \div a
SpaceOk(op, e) == e.ssh = e.esh /\ \A i \in DOMAIN e.s : e.s[i] <= e.e[i]
SpaceShape(e) == <<e.len>> \o e.ssh
(* points of entry i, as a sequence *)
Pts(e, n, i) == [k \in 1..e.len |-> Of(e.r[(k - 1) * n + i])]
(* within 2^-21 of the endpoints' magnitudes *)
LinHolds(p, s, e) ==
  LET L == Len(p)
      tol == LAdd(LShr(LMul(LAdd(Q(s).m, Q(e).m), OfInt(L)), 21), OfInt(2 * L))
  IN /\ L >= 1 => p[1] = Q(s)
     /\ \A k \in 2..L : ~LLess(tol, Sub_(Mul_(p[k], Int_(L - 1)), Add_(Mul_(Q(s), Int_(L - 1)), Mul_(Q(e - s), Int_(k - 1)))).m)
(* each point is the mean of its neighbours, and of the farthest points around it *)
Geometric(p) == \A k \in 2..(Len(p) - 1) : \A d \in {1, IF 2 * k <= Len(p) THEN k - 1 ELSE Len(p) - k} : Near(Mul_(p[k], p[k]), Mul_(p[k - d], p[k + d]), 13, 4)
(* a spaced sequence with given first and last values *)
GeomHolds(p, a, b) ==
  /\ \A k \in DOMAIN p : ~p[k].n /\ p[k].m # <<>>
  /\ Len(p) >= 1 => Near(p[1], a, 16, 64)
  /\ Len(p) >= 2 => Near(p[Len(p)], b, 16, 64)
  /\ Geometric(p)
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN <<1>> ELSE LMul(OfInt(b), Pow(b, n - 1))
(* base ^ x for an integer x >= -3, as fixed-point *)
RECURSIVE BasePow(_, _)
(* a base below -1 stands for a fraction: -b is 1/b *)
BasePow(base, x) == IF base < 0 THEN BasePow(-base, -x) ELSE IF x >= 0 THEN Shl_(Num(FALSE, Pow(base, x)), FB) ELSE Num(FALSE, OfInt((2 ^ FB + (base ^ (-x)) \div 2) \div (base ^ (-x))))
=============================================================================
