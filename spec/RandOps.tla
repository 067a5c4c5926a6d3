------------------------------ MODULE RandOps ------------------------------
(***************************************************************************)
(* The two generators: a 64-bit (128-bit) linear congruential state and a  *)
(* permuted 32-bit (64-bit) output, in exact limb arithmetic.  Derived     *)
(* values: uniform = output / (2^W - 1); normal = Box-Muller of the next   *)
(* two uniform values, evaluated here with shift-and-add logarithm and     *)
(* CORDIC cosine at 24 fractional bits.                                    *)
(***************************************************************************)
EXTENDS Fix, TLC
A32 == <<2005, 1315, 2952, 1409, 2082, 4>>
C32 == <<3301, 1529, 1050, 2534, 3794, 6>>
M32 == <<45, 1328, 138>>
A64 == <<3709, 1033, 2918, 632, 2926, 2680, 1190, 1215, 3835, 2794, 172>>
C64 == <<909, 3515, 3002, 927, 2798, 22, 2597, 1348, 675, 320, 53>>
M64 == <<3629, 58, 2196, 1222, 398, 10>>
(* w: output width 32 or 64; the state has 2w bits *)
Step(w, s) == IF w = 32 THEN LMod(LAdd(LMul(s, A32), C32), 64) ELSE LMod(LAdd(LMul(s, A64), C64), 128)
(* n steps at once: the n-fold composition of s -> A s + C, by doubling *)
RECURSIVE Pow_(_, _, _, _)
Pow_(w, n, f, acc) ==      \* f = <<a, c>>: s -> a s + c
  IF n = 0 THEN acc
  ELSE LET M(x) == LMod(x, 2 * w)
           comp(g, k) == <<M(LMul(g[1], k[1])), M(LAdd(LMul(g[1], k[2]), g[2]))>>     \* g after k
       IN Pow_(w, n \div 2, TLCEval(comp(f, f)), IF n % 2 = 1 THEN TLCEval(comp(f, acc)) ELSE acc)
Jump(w, n, s) == LET f == Pow_(w, n, IF w = 32 THEN <<A32, C32>> ELSE <<A64, C64>>, << <<1>>, <<>> >>) IN LMod(LAdd(LMul(f[1], s), f[2]), 2 * w)
Output(w, s) ==
  LET r == LMod(LShr(s, 32), w)
      x == LXor(r, LShr(r, w \div 2))
  IN LMod(LMul(x, IF w = 32 THEN M32 ELSE M64), w)
(* seed from text: fold over the bytes *)
TextSeed(w, bytes) == FoldLeft(LAMBDA s, b : LMod(LAdd(Step(w, s), OfInt(b)), 2 * w), <<>>, bytes)

(* --- uniform: the reported value r * 2^(w+8) against u * 2^8; relative precision of the type --- *)
Ulp(w) == IF w = 32 THEN 22 ELSE 50
UniformHolds(w, u, r) == Near(Num(FALSE, r), Num(FALSE, LShl(u, 8)), Ulp(w), 512) /\ ~LLess(LShl(<<1>>, w + 8), r)

(* --- elementary functions, 24 fractional bits, plain integers --- *)
LnTab == <<6802576, 3743728, 1976071, 1017112, 516263, 260117, 130563, 65408, 32736, 16376, 8190, 4096, 2048, 1024, 512, 256, 128, 64, 32, 16, 8, 4, 2, 1>>
Ln2 == 11629080
AtTab == <<13176795, 7778716, 4110060, 2086331, 1047214, 524117, 262123, 131069, 65536, 32768, 16384, 8192, 4096, 2048, 1024, 512, 256, 128, 64, 32, 16, 8, 4, 2, 1>>
CordicK == 10188014
One == 16777216
Idx(n) == [k \in 1..n |-> k]
RECURSIVE BitLen(_)
BitLen(n) == IF n = 0 THEN 0 ELSE 1 + BitLen(n \div 2)
LBitLen(x) == IF x = <<>> THEN 0 ELSE 12 * (Len(x) - 1) + BitLen(x[Len(x)])
RECURSIVE ToInt(_)
ToInt(x) == IF x = <<>> THEN 0 ELSE Head(x) + B * ToInt(Tail(x))
(* ln of m / 2^24 for m in [2^24, 2^25): multiply by (1 + 2^-k) while staying below 2 *)
LnMant(m) ==
  LET st == FoldLeft(LAMBDA a, k : LET t == a[1] + a[1] \div (2 ^ k) IN IF t <= 2 * One THEN <<t, a[2] + LnTab[k]>> ELSE a, <<m, 0>>, Idx(24))
  IN Ln2 - st[2]
(* -ln(u / 2^w), u > 0 *)
MinusLn(w, u) ==
  LET bl == LBitLen(u)
      m == ToInt(IF bl > 25 THEN LShr(u, bl - 25) ELSE LShl(u, 25 - bl))
  IN (w - bl + 1) * Ln2 - LnMant(m)
(* CORDIC: <<cos, sin>> of an angle in [0, pi/2] *)
CosSin(ang) ==
  LET st == FoldLeft(LAMBDA a, k : LET p == 2 ^ (k - 1) IN
                       IF a[3] >= 0 THEN <<a[1] - a[2] \div p, a[2] + a[1] \div p, a[3] - AtTab[k]>>
                       ELSE <<a[1] + a[2] \div p, a[2] - a[1] \div p, a[3] + AtTab[k]>>, <<CordicK, 0, ang>>, Idx(25))
  IN <<st[1], st[2]>>
QuarterAngle(f) == 6 * f + (283 * f) \div 1000 + (185 * f) \div 1000000     \* f / 2^22 * pi/2, 24 fractional bits
(* cos and sin of 2 pi t / 2^24 *)
CosTurn(t) ==
  LET q == t \div 4194304
      cs == CosSin(QuarterAngle(t % 4194304))
  IN CASE q = 0 -> cs[1] [] q = 1 -> -cs[2] [] q = 2 -> -cs[1] [] q = 3 -> cs[2]
Top24(w, u) == ToInt(LShr(u, w - 24))
(* z: the reported normal value (fixed-point) for the outputs u1, u2 *)
NormalHolds(w, u1, u2, z) ==
  IF u1 = <<>> THEN TRUE                       \* any finite value
  ELSE LET L == MinusLn(w, u1)
           c == CosTurn(Top24(w, u2))
           want == FxMul(Shl_(Int_(L), 1), FxMul(Int_(c), Int_(c)))
       IN /\ Near(FxMul(z, z), want, 10, 16384)
          /\ (c > 300000 /\ L > 300000 => ~z.n) /\ (c < -300000 /\ L > 300000 => z.n)
=============================================================================
