-------------------------------- MODULE Fix --------------------------------
(***************************************************************************)
(* Signed numbers of any size as [n |-> negative?, m |-> magnitude in      *)
(* limbs], used as fixed-point reals with FB fractional bits.  The harness *)
(* reports a floating-point value as the nearest such number (b # "" marks *)
(* a value that is not finite).                                            *)
(***************************************************************************)
EXTENDS Limbs
FB == 24
Num(n, m) == [n |-> n /\ m # <<>>, m |-> m]
Int_(i) == Num(i < 0, OfInt(IF i < 0 THEN -i ELSE i))
LOCAL Lb(x, k) == IF k <= Len(x) THEN x[k] ELSE 0
RECURSIVE Borrow(_, _, _, _)
Borrow(x, y, k, b) ==
  IF k > Len(x) THEN <<>>
  ELSE LET t == x[k] - Lb(y, k) - b IN <<t % B>> \o Borrow(x, y, k + 1, IF t < 0 THEN 1 ELSE 0)
LSub(x, y) == Trim(Borrow(x, y, 1, 0))            \* x >= y
Neg_(a) == Num(~a.n, a.m)
Add_(a, b) == IF a.n = b.n THEN Num(a.n, LAdd(a.m, b.m))
              ELSE IF LLess(a.m, b.m) THEN Num(b.n, LSub(b.m, a.m)) ELSE Num(a.n, LSub(a.m, b.m))
Sub_(a, b) == Add_(a, Neg_(b))
Mul_(a, b) == Num(a.n # b.n, LMul(a.m, b.m))
Shl_(a, k) == Num(a.n, LShl(a.m, k))
Shr_(a, k) == Num(a.n, LShr(a.m, k))               \* toward zero
Abs_(a) == Num(FALSE, a.m)
Less_(a, b) == IF a.n # b.n THEN a.n ELSE IF a.n THEN LLess(b.m, a.m) ELSE LLess(a.m, b.m)
Le_(a, b) == ~Less_(b, a)
Zero_ == Num(FALSE, <<>>)
Sum_(s) == FoldLeft(LAMBDA x, y : Add_(x, y), Zero_, s)
(* fixed-point *)
Fx(i) == Shl_(Int_(i), FB)
FxMul(a, b) == Shr_(Mul_(a, b), FB)
Finite(x) == x.b = ""
Of(x) == Num(x.n, x.m)
(* |a - w| <= |w| / 2^rel + abs *)
Near(a, w, rel, abs) == ~LLess(LAdd(LShr(w.m, rel), OfInt(abs)), Sub_(a, w).m)
=============================================================================
