------------------------------- MODULE WavOps -------------------------------
(***************************************************************************)
(* The WAV image format, as a reader over a byte sequence: the canonical   *)
(* 44-byte header of 16-bit PCM, then the samples.                         *)
(***************************************************************************)
EXTENDS Limbs, SequencesExt, TLC
(* bytes are 1-based here: Le16(b, 21) reads the bytes at offsets 20 and 21 *)
Le16(b, i) == b[i] + 256 * b[i + 1]
(* 32-bit fields saturate at 2^30: no image is that long *)
Le32(b, i) == IF b[i + 3] >= 64 THEN 1073741824 ELSE b[i] + 256 * b[i + 1] + 65536 * b[i + 2] + 16777216 * b[i + 3]
L32(b, i) == LAdd(OfInt(Le16(b, i)), LShl(OfInt(Le16(b, i + 2)), 16))
Riff == <<82, 73, 70, 70>>
Wave == <<87, 65, 86, 69>>
Fmt == <<102, 109, 116, 32>>
Data == <<100, 97, 116, 97>>
At(b, i, s) == SubSeq(b, i, i + 3) = s
Header(b) ==
  /\ Len(b) >= 44
  /\ At(b, 1, Riff) /\ L32(b, 5) = OfInt(Len(b) - 8) /\ At(b, 9, Wave)
  /\ At(b, 13, Fmt) /\ L32(b, 17) = <<16>>
  /\ Le16(b, 21) = 1 /\ Le16(b, 35) = 16
  /\ At(b, 37, Data)
Chan(b) == Le16(b, 23)
DSize(b) == Le32(b, 41)
NSamp(b) == DSize(b) \div 2
MustReject(b) ==
  \/ ~Header(b)
  \/ DSize(b) > Len(b) - 44                       \* truncated
  \/ Chan(b) = 0 \/ NSamp(b) % Chan(b) # 0        \* not a whole number of frames
(* byte rate and alignment follow from the rest; nothing follows the samples *)
Canonical(b) ==
  /\ ~MustReject(b) /\ DSize(b) = Len(b) - 44 /\ DSize(b) % 2 = 0
  /\ Le16(b, 33) = 2 * Chan(b) /\ L32(b, 29) = LMul(L32(b, 25), OfInt(2 * Chan(b)))
Signed(x) == IF x >= 32768 THEN x - 65536 ELSE x
Samples(b) == [k \in 1..NSamp(b) |-> Signed(Le16(b, 43 + 2 * k))]
Verdict(b, r) ==
  IF MustReject(b) THEN (IF r.out = "panic" THEN "" ELSE "an invalid image was accepted")
  ELSE IF r.out = "panic" THEN (IF Canonical(b) THEN "a valid image was rejected" ELSE "")
  ELSE IF r.rsh # <<NSamp(b) \div Chan(b), Chan(b)>> THEN "wrong frames or channels"
  ELSE IF r.el # Samples(b) THEN "wrong samples"
  ELSE IF r.rate # L32(b, 25) THEN "wrong sample rate"
  ELSE ""
(* --- writer --- *)
B16(n) == <<n % 256, (n \div 256) % 256>>
B32(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216>>
Wrap(ch, rate, d) == Riff \o B32(36 + Len(d)) \o Wave \o Fmt \o B32(16) \o B16(1) \o B16(ch) \o B32(rate) \o B32(rate * 2 * ch) \o B16(2 * ch) \o B16(16) \o Data \o B32(Len(d)) \o d
U16(x) == IF x < 0 THEN x + 65536 ELSE x
Image(ch, rate, sm) == Wrap(ch, rate, FoldLeft(LAMBDA a, x : a \o B16(U16(x)), <<>>, sm))
=============================================================================
