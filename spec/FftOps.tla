------------------------------- MODULE FftOps -------------------------------
(***************************************************************************)
(* Magnitude of the discrete Fourier transform of one row after the        *)
(* periodic Hann window sin^2(pi j / n), by the definition, in fixed point *)
(* (24 fractional bits; cosines by CORDIC).                                *)
(***************************************************************************)
EXTENDS RandOps
Turn(p, n) == LET q == One \div n  r == One % n IN (q * p + (r * p) \div n) % One       \* (p/n) turns, 0 <= p < n
CosTab(n) == [p \in 0..(n - 1) |-> CosTurn(Turn(p, n))]
(* sin of p/n turns = cos of (p/n - 1/4) turns *)
SinTab(n) == [p \in 0..(n - 1) |-> CosTurn((Turn(p, n) + 3 * (One \div 4)) % One)]
Window(ct, j) == (One - ct[j]) \div 2
(* squared magnitude of output k; row: data in eighths, y: windowed row in fixed point *)
Windowed(row, ct) == [j \in 1..Len(row) |-> FxMul(Shl_(Int_(row[j]), FB - 3), Int_(Window(ct, j - 1)))]
Part(y, tab, k, n) == FoldLeft(LAMBDA a, j : Add_(a, FxMul(y[j], Int_(tab[((j - 1) * k) % n]))), Zero_, [j \in 1..n |-> j])
Mag2(y, ct, st, k, n) == LET re == Part(y, ct, k, n)  im == Part(y, st, k, n) IN Add_(FxMul(re, re), FxMul(im, im))
SumAbs(row) == FoldLeft(LAMBDA a, x : LAdd(a, LShl(OfInt(IF x < 0 THEN -x ELSE x), FB - 3)), <<>>, row)
(* | g^2 - m2 | <= (2 g + tau) tau with tau = 2^-15 of the sum of absolute values, plus the resolution *)
MagOk(g, m2, sa) ==
  /\ g.b = "" /\ ~g.n
  /\ LET tau == LAdd(LShr(sa, 15), <<64>>)
         bound == LAdd(LShr(LMul(LAdd(LShl(g.m, 1), tau), tau), FB), <<8>>)
     IN ~LLess(bound, Sub_(FxMul(Of(g), Of(g)), m2).m)
RowOk(row, out) ==
  LET n == Len(row)  half == (n \div 2) + 1
      ct == TLCEval(CosTab(n))  st == TLCEval(SinTab(n))
      y == TLCEval(Windowed(row, ct))  sa == SumAbs(row)
  IN \A k \in 1..Len(out) : IF k <= half THEN MagOk(out[k], Mag2(y, ct, st, k - 1, n), sa)
                            ELSE out[k].b = "" /\ out[k].m = <<>>
=============================================================================
