-------------------------------- MODULE Rnd --------------------------------
(***************************************************************************)
(* Deterministic pseudo-random choices.  A choice is addressed by a key    *)
(* c = <<seed, ...>> and a tag k, so that the same behaviour is generated  *)
(* for the same VERIF_SEED whatever the evaluation order or worker count.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt
LOCAL P == 46337
LOCAL Q == 46327
LOCAL MixP(a, x) == LET t == (a + (x % P) * 2707 + 11) % P IN (((t * t) % P) * 5 + t * 3 + a + 1) % P
LOCAL MixQ(a, x) == LET t == (a * 7 + (x % Q) * 1201 + 29) % Q IN (((t * t) % Q) * 3 + t + a * 11 + 5) % Q
LOCAL RawP(c) == FoldLeft(MixP, 4242, c)
LOCAL RawQ(c) == FoldLeft(MixQ, 977, c)
(* 0..n-1 *)
RN(c, k, n) == (RawP(Append(Append(c, k), 3)) * 7 + RawQ(Append(Append(c, k), 5))) % n
(* an element of a sequence; true with probability p percent *)
RS(c, k, s) == s[RN(c, k, Len(s)) + 1]
RP(c, k, p) == RN(c, k, 100) < p
=============================================================================
