----------------------------- MODULE SeedTrace -----------------------------
(***************************************************************************)
(* Recorded histories of reseedings and threads' draws: some order of the  *)
(* operations, respecting which ended before which began, must be a        *)
(* behaviour of SeedAtomic.  The register is represented by the element    *)
(* the next thread would take: known, or unknown after "seed 0" (entropy). *)
(* The element after e is the first output of the generator seeded by e,   *)
(* which is also the first draw of the thread that took e.                 *)
(***************************************************************************)
EXTENDS RandOps, FiniteSets, IOUtils, Json
H == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, err
First(e) == Output(64, Step(64, e))
Stream(e, len) == FoldLeft(LAMBDA a, k : LET s == Step(64, a[1]) IN <<s, Append(a[2], Output(64, s))>>, <<e, <<>>>>, [k \in 1..len |-> k])[2]
Known(e) == [u |-> FALSE, e |-> e]
Unknown == [u |-> TRUE, e |-> <<>>]
OfSeed(s) == IF s = <<>> THEN Unknown ELSE Known(First(s))
Before(ops, i, rem) == \A j \in rem : j = i \/ ~(ops[j].end < ops[i].begin)
(* after the first draw, skip draws were made that were not recorded *)
Matches(nxt, d, skip) == nxt.u \/ (First(nxt.e) = d[1] /\ Stream(Jump(64, 1 + skip, nxt.e), Len(d) - 1) = Tail(d))
RECURSIVE Lin(_, _, _)
Lin(ops, nxt, rem) ==
  \/ rem = {}
  \/ \E i \in rem :
       /\ Before(ops, i, rem)
       /\ IF ops[i].o = "set" THEN Lin(ops, OfSeed(ops[i].s), rem \ {i})
          ELSE Matches(nxt, ops[i].d, ops[i].skip) /\ Lin(ops, Known(ops[i].d[1]), rem \ {i})
(* one thread after the other: the only order is the recorded one *)
InTurn(ops, s0) ==
  LET Go(a, i) == IF a.ok /\ Matches(a.n, ops[i].d, ops[i].skip) /\ (i = 1 \/ ops[i - 1].end < ops[i].begin) THEN [ok |-> TRUE, n |-> Known(ops[i].d[1])] ELSE [a EXCEPT !.ok = FALSE]
  IN FoldLeft(Go, [ok |-> TRUE, n |-> OfSeed(s0)], [i \in 1..Len(ops) |-> i]).ok
Good(e) == IF e.k = "chain" THEN InTurn(e.ops, e.s0) ELSE /\ \A i \in 1..Len(e.ops) : e.ops[i].o = "set" \/ Len(e.ops[i].d) > 0
           /\ Lin(e.ops, OfSeed(e.s0), 1..Len(e.ops))
Init == h \in 1..Len(H) /\ l = 0 /\ err = ""
Next == /\ l = 0 /\ l' = 1 /\ h' = h
        /\ err' = IF Good(H[h]) THEN "" ELSE "no order of the reseedings and first draws explains the threads' draws (" \o H[h].k \o ")"
Conform == err = ""
Consumed_All == TLCGet("distinct") = 2 * Len(H)
=============================================================================
