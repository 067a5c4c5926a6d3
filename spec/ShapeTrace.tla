----------------------------- MODULE ShapeTrace -----------------------------
EXTENDS ShapeOps, IOUtils, Json
H == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, d, err
Init == h \in 1..Len(H) /\ l = 0 /\ d = <<>> /\ err = ""
Check(e) ==
  IF e.op \in AskOps
  THEN LET a == Answer(e, d)
       IN IF e.ok # a.ok THEN "outcome of " \o e.op \o ": expected ok = " \o ToString(a.ok)
          ELSE IF a.ok /\ e.val # a.val THEN e.op \o ": expected " \o ToString(a.val) ELSE ""
  ELSE LET q == Edit(e, d)
       IN IF e.ok # q.ok THEN "outcome of " \o e.op \o ": expected ok = " \o ToString(q.ok)
          ELSE IF Has(e, "quiet") THEN ""
          ELSE IF Has(e.obs, "panicked") THEN "after " \o e.op \o ": a query was rejected"
          ELSE LET w == Ask(q.d)
                   bad == {f \in DOMAIN w : e.obs[f] # w[f]}
               IN IF bad = {} THEN ""
                  ELSE LET f == CHOOSE f \in bad : TRUE IN "after " \o e.op \o ", " \o f \o ": expected " \o ToString(w[f])
Next == /\ err = "" /\ l < Len(H[h].ev)
        /\ \E e \in {H[h].ev[l + 1]} : err' = Check(e) /\ d' = (IF e.op \in AskOps THEN d ELSE Edit(e, d).d)
        /\ l' = l + 1 /\ h' = h
Conform == err = ""
Consumed_All == TLCGet("distinct") = FoldLeft(LAMBDA acc, x : acc + Len(x.ev) + 1, 0, H)
=============================================================================
