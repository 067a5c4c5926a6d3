------------------------------ MODULE SeedVals ------------------------------
(* seeds that a program would write down or an implementation might treat specially: small numbers, powers of two and their neighbours *)
EXTENDS Limbs
Pow2(k) == [j \in 1..((k \div 12) + 1) |-> IF j <= k \div 12 THEN 0 ELSE 2 ^ (k % 12)]
Ones(k) == LMod([j \in 1..((k \div 12) + 1) |-> 4095], k)          \* 2^k - 1
PowVals(bits) == [i \in 1..(3 * (bits - 4)) |-> LET k == 4 + ((i - 1) \div 3) IN
                    IF i % 3 = 1 THEN Pow2(k) ELSE IF i % 3 = 2 THEN Ones(k + 1) ELSE LAdd(Pow2(k), <<1>>)]
SmallVals == [i \in 1..130 |-> <<i>>] \o <<OfInt(255), OfInt(999), OfInt(1000), OfInt(1234), OfInt(10000), OfInt(12345), OfInt(123456), OfInt(1000000), OfInt(123456789)>>
SpecialSeeds64 == SmallVals \o PowVals(64)
=============================================================================
