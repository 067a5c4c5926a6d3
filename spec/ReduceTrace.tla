----------------------------- MODULE ReduceTrace -----------------------------
EXTENDS ReduceOps, IOUtils, Json
H == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, done, err
Init == h \in 1..Len(H) /\ done = FALSE /\ err = ""
(* the groups of the result, as a tensor whose elements are the sequences of source values *)
RGroups(t, ax) == IF ax >= 100 THEN Ten(<<>>, <<t.v>>) ELSE AlongAxis(t, Axis(ax, Rank(t)), LAMBDA g : g)
Check(e) ==
  LET t == Ten(e.sh, e.q)
      (* a repeated tensor's unit normalisation: the result's first period and the first later one that differs (or the last) are given *)
      G == TLCEval(IF e.op = "unit" THEN (IF e.rep > 1 THEN Ten(<<e.rep * e.sh[1]>> \o Tail(e.sh), [i \in 1..(2 * Len(e.q)) |-> e.q]) ELSE Ten(e.sh, [i \in DOMAIN e.q |-> e.q])) ELSE RGroups(t, e.ax))
      what == e.op \o " on " \o e.ty \o " axis " \o ToString(e.ax) \o ": "
  IN IF ~e.ok THEN what \o "rejected"
     ELSE IF e.rsh # G.sh THEN what \o "expected shape " \o ToString(G.sh)
     ELSE IF Len(e.r) # Len(G.v) THEN what \o "wrong number of elements"
     ELSE LET bad == {i \in DOMAIN G.v : ~(IF e.sp /\ HasInf(G.v[i]) THEN HoldsInf(e.op, G.v[i], e.r[i]) ELSE Finite(e.r[i]) /\ IF e.op = "unit" THEN UnitHolds(e.off, e.q, e.q[((i - 1) % Len(e.q)) + 1], Of(e.r[i])) ELSE IF e.rep > 1 THEN HoldsRep(e.op, e.off, G.v[i], e.rep, Of(e.r[i])) ELSE Holds(e.op, e.off, G.v[i], Of(e.r[i])))}
          IN IF bad = {} THEN "" ELSE LET i == CHOOSE i \in bad : TRUE
             IN what \o "position " \o ToString(i) \o " does not satisfy the definition over " \o ToString(e.rep) \o " repetitions of offset " \o ToString(e.off) \o " quarters " \o ToString(G.v[i])
Next == /\ ~done /\ done' = TRUE /\ h' = h /\ err' = Check(H[h])
Conform == err = ""
Consumed_All == TLCGet("distinct") = 2 * Len(H)
=============================================================================
