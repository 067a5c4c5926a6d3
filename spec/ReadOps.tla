------------------------------ MODULE ReadOps ------------------------------
(***************************************************************************)
(* Reading a file.  The system holds the bytes not yet delivered, as the   *)
(* writer's portions; each read call delivers a non-empty prefix of the    *)
(* first portion that fits the buffer offered, or nothing at the end.  The *)
(* reader keeps what it got and stops only when a call delivers nothing.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt
Byte(seed, i) == (seed * 31 + i * 7 + (((i % 13) * (i % 13)) % 13)) % 256
Content(seed, from, len) == [k \in 1..len |-> Byte(seed, from + k)]
Total(ch) == FoldLeft(LAMBDA a, x : a + x, 0, ch)
(* large files are recorded by their length, the number of bytes that differ and some of the bytes *)
Marks(len) == SelectSeq(<<1, 2, 4096, 65536, 65537, 1048576, 1048577, 16777216, 16777217, len \div 2, len - 1, len>>, LAMBDA i : i >= 1 /\ i <= len)
=============================================================================
