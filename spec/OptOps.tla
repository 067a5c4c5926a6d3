------------------------------- MODULE OptOps -------------------------------
(***************************************************************************)
(* Option structures: a sequence of fields, each plain or optional, of a   *)
(* type, with a default (-1: none).  State: the vector of field values.    *)
(* Start: every field has its default; Set(f, v) replaces field f only.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt
Start(fs) == [i \in 1..Len(fs) |-> fs[i].d]
Set(st, op) == IF op.f = 0 THEN st ELSE [st EXCEPT ![op.f] = op.v]      \* f = 0: conversion to the structure in mid-chain
Final(fs, ops) == FoldLeft(Set, Start(fs), ops)
=============================================================================
