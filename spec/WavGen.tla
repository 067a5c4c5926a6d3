------------------------------- MODULE WavGen -------------------------------
(* Canonical images of all small forms, and each of them damaged: every byte position, every truncation, other lengths and chunks. *)
EXTENDS WavOps, Rnd, IOUtils, Emit, TLC
Deep == IOEnv.TIER = "thorough"
Key == atoi(IOEnv.VERIF_SEED) % 40000
NR == IF Deep THEN 12000 ELSE 1500
Ext == <<0, 1, -1, 32767, -32768, 255, 256, -256, 128, -255, 127, -129, 4660>>
Rates == <<1, 8000, 16000, 22050, 44100, 48000, 96000, 255, 65536, 1000000>>
VARIABLES n, pos
Good(c) ==
  LET ch == IF RP(c, 1, 40) THEN 1 ELSE IF RP(c, 2, 10) THEN 17 ELSE 1 + RN(c, 3, 6)
      fr == IF RP(c, 4, 10) THEN 0 ELSE IF RP(c, 5, 5) THEN 40 ELSE 1 + RN(c, 6, 8)
  IN Image(ch, RS(c, 7, Rates), [k \in 1..(ch * fr) |-> IF RP(c, 100 + 2 * k, 40) THEN RS(c, 101 + 2 * k, Ext) ELSE RN(c, 101 + 2 * k, 65536) - 32768])
Small == Image(2, 16000, <<1, -2, 32767, -32768, 300, -300>>)
Put(b, i, v) == [b EXCEPT ![i] = v]
Ins(b, i, x) == SubSeq(b, 1, i) \o x \o SubSeq(b, i + 1, Len(b))
FixLen(b) == SubSeq(b, 1, 4) \o B32(Len(b) - 8) \o SubSeq(b, 9, Len(b))
Damage(c, b) ==
  LET k == RN(c, 20, 16)
      x == 1 + RN(c, 21, 255)
      p == 1 + RN(c, 22, Len(b))
      hp == 1 + RN(c, 23, 44)
      ds == Le32(b, 41)
      dsz(v) == SubSeq(b, 1, 40) \o B32(v) \o SubSeq(b, 45, Len(b))
  IN CASE k = 0 -> SubSeq(b, 1, p - 1)                                    \* truncated, length field stale
       [] k = 1 /\ p > 12 -> FixLen(SubSeq(b, 1, p))                      \* truncated, length field right
       [] k = 2 -> Put(b, hp, (b[hp] + x) % 256)
       [] k = 3 -> b \o <<x>>
       [] k = 4 -> FixLen(b \o [i \in 1..(1 + (x % 9)) |-> 7])            \* something follows the samples
       [] k = 5 -> FixLen(Ins(b, 36, <<76, 73, 83, 84, 4, 0, 0, 0, 1, 2, 3, 4>>))      \* LIST before data
       [] k = 6 -> FixLen(SubSeq(b, 1, 16) \o B32(18) \o SubSeq(b, 21, 36) \o <<0, 0>> \o SubSeq(b, 37, Len(b)))
       [] k = 7 -> dsz(ds + 1)
       [] k = 8 -> dsz(ds + 2)
       [] k = 9 /\ ds >= 2 -> dsz(ds - 2)
       [] k = 10 /\ ds >= 1 -> dsz(ds - 1)
       [] k = 11 -> SubSeq(b, 1, 40) \o <<x, 0, 0, 128 + (x % 128)>> \o SubSeq(b, 45, Len(b))
       [] k = 12 -> SubSeq(b, 1, 34) \o B16(RS(c, 24, <<8, 24, 32, 0, 17, 4112>>)) \o SubSeq(b, 37, Len(b))
       [] k = 13 -> SubSeq(b, 1, 20) \o B16(RS(c, 25, <<0, 2, 3, 6, 7, 257, 65534>>)) \o SubSeq(b, 23, Len(b))
       [] k = 14 -> SubSeq(b, 1, 22) \o B16(RS(c, 26, <<0, 2, 3, 4, 5, 256, 65535>>)) \o SubSeq(b, 25, Len(b))
       [] OTHER -> SubSeq(b, 1, 24) \o <<x, (7 * x) % 256, (13 * x) % 256, 200>> \o SubSeq(b, 29, Len(b))  \* rate above 2^31
(* long images, around the sizes of 8- and 16-bit counters, and with many channels: <<channels, frames>> *)
Longs == << <<1, 127>>, <<1, 128>>, <<2, 64>>, <<1, 300>>, <<255, 1>>, <<256, 2>>, <<300, 3>>, <<1, 2500>>, <<1000, 1>>, <<2, 16384>>, <<1, 32767>>, <<1, 32768>>, <<3, 11000>>, <<1, 66000>>, <<1, 140000>> >>
         \o (IF Deep THEN << <<65535, 1>>, <<7, 19000>>, <<2, 65536>> >> ELSE <<>>)
LongByte(i) == LET k == (i + 1) \div 2  x == ((k % 20000) * 97 + (k \div 7) * 13) % 65536 IN IF i % 2 = 1 THEN x % 256 ELSE x \div 256
Long(c, i) == LET m == 2 * Longs[i][1] * Longs[i][2] IN Wrap(Longs[i][1], RS(c, 7, Rates), TLCEval([j \in 1..m |-> LongByte(j)]))
(* the same with one sample's worth of data missing, or one byte of the lengths off *)
LongDamage(b, k) == CASE k = 0 -> FixLen(SubSeq(b, 1, Len(b) - 2)) [] k = 1 -> SubSeq(b, 1, Len(b) - 1) [] OTHER -> Put(b, 42, (b[42] + 1) % 256)
Xs == <<1, 128, 255, 32>>
Init == n \in 1..(2000 + NR + 4 * Len(Longs)) /\ pos = 0
Case(i) ==
  LET c == <<Key, i>> IN
  IF i <= 44 * 4 THEN LET p == ((i - 1) \div 4) + 1 IN Put(Small, p, (Small[p] + Xs[((i - 1) % 4) + 1]) % 256)
  ELSE IF i <= 44 * 4 + Len(Small) THEN SubSeq(Small, 1, i - 44 * 4 - 1)
  ELSE IF i <= 44 * 4 + 2 * Len(Small) - 11 THEN FixLen(SubSeq(Small, 1, i - 44 * 4 - Len(Small) + 11))
  ELSE IF i % 3 = 0 THEN Good(c) ELSE TLCEval(Damage(c, TLCEval(Good(c))))
Row(b) == EmitRow([id |-> n, b |-> b, pad |-> IF RP(<<Key, n>>, 30, 40) THEN 1 + RN(<<Key, n>>, 31, 5) ELSE 0])
Next == /\ pos = 0 /\ pos' = 1 /\ n' = n
        /\ IF n <= 2000 + NR THEN Row(Case(n))
           ELSE LET j == n - 2000 - NR IN
                IF j <= Len(Longs) THEN \E b \in {Long(<<Key, n>>, j)} : Row(b)
                ELSE \E b \in {Long(<<Key, n>>, ((j - Len(Longs) - 1) \div 3) + 1)} : \E d \in {LongDamage(b, j % 3)} : Row(d)
=============================================================================
