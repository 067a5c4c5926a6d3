------------------------------- MODULE Limbs -------------------------------
(***************************************************************************)
(* Natural numbers beyond TLC's 32-bit integers: little-endian sequences   *)
(* of 12-bit limbs without trailing zero limbs (zero is <<>>).             *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Bitwise
B == 4096
LOCAL Mx(a, b) == IF a > b THEN a ELSE b
LOCAL Limb(x, k) == IF k <= Len(x) THEN x[k] ELSE 0
RECURSIVE Trim(_)
Trim(x) == IF x = <<>> \/ x[Len(x)] # 0 THEN x ELSE Trim(SubSeq(x, 1, Len(x) - 1))
RECURSIVE OfInt(_)
OfInt(n) == IF n = 0 THEN <<>> ELSE <<n % B>> \o OfInt(n \div B)
(* normalise a sequence of column sums (each < 2^31) *)
RECURSIVE Carry(_, _)
Carry(cols, c) ==
  IF cols = <<>> THEN OfInt(c)
  ELSE LET t == Head(cols) + c IN <<t % B>> \o Carry(Tail(cols), t \div B)
LAdd(x, y) == Trim(Carry([k \in 1..Mx(Len(x), Len(y)) |-> Limb(x, k) + Limb(y, k)], 0))
LMul(x, y) ==
  IF x = <<>> \/ y = <<>> THEN <<>>
  ELSE Trim(Carry([k \in 1..(Len(x) + Len(y) - 1) |->
        FoldLeft(LAMBDA acc, j : IF k + 1 - j \in 1..Len(y) THEN acc + x[j] * y[k + 1 - j] ELSE acc,
                 0, [j \in 1..Len(x) |-> j])], 0))
(* modulo 2^n *)
LMod(x, n) ==
  LET full == n \div 12  part == n % 12
  IN Trim([k \in 1..(IF Len(x) < full + 1 THEN Len(x) ELSE full + 1) |->
        IF k <= full THEN x[k] ELSE x[k] % (2 ^ part)])
(* x div 2^n *)
LShr(x, n) ==
  LET full == n \div 12  part == n % 12
      y == SubSeq(x, full + 1, Len(x))
  IN Trim([k \in 1..Len(y) |-> (y[k] \div (2 ^ part)) + (Limb(y, k + 1) % (2 ^ part)) * (2 ^ (12 - part))])
LShl(x, n) ==
  LET full == n \div 12  part == n % 12
  IN LMul([k \in 1..(full + 1) |-> IF k <= full THEN 0 ELSE 2 ^ part], x)
LXor(x, y) == Trim([k \in 1..Mx(Len(x), Len(y)) |-> Limb(x, k) ^^ Limb(y, k)])
LOr(x, y) == Trim([k \in 1..Mx(Len(x), Len(y)) |-> Limb(x, k) | Limb(y, k)])
(* rotate right within width n by r *)
LRotr(x, r, n) == LMod(LOr(LShr(x, r), LShl(LMod(x, r), n - r)), n)
RECURSIVE LProd(_)
LProd(s) == IF s = <<>> THEN <<1>> ELSE LMul(OfInt(Head(s)), LProd(Tail(s)))
LBit(x, k) == (Limb(x, (k \div 12) + 1) \div (2 ^ (k % 12))) % 2
RECURSIVE LLess(_, _)
LLess(x, y) == IF Len(x) # Len(y) THEN Len(x) < Len(y)
               ELSE IF x = <<>> THEN FALSE
               ELSE IF x[Len(x)] # y[Len(y)] THEN x[Len(x)] < y[Len(y)]
               ELSE LLess(Trim(SubSeq(x, 1, Len(x) - 1)), Trim(SubSeq(y, 1, Len(y) - 1)))
=============================================================================
