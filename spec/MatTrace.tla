------------------------------ MODULE MatTrace ------------------------------
EXTENDS MatOps, IOUtils, Json
H == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, done, err
Init == h \in 1..Len(H) /\ done = FALSE /\ err = ""
Check(e) ==
  LET w == Product(e)  what == e.op \o " " \o e.mode \o " of " \o ToString(e.ash) \o " and " \o ToString(e.bsh) \o ": "
  IN IF w.out = "any" THEN ""
     ELSE IF e.ok # (w.out = "ok") THEN what \o "expected " \o w.out
     ELSE IF ~e.ok THEN ""
     ELSE IF e.sh # w.res[1].sh THEN what \o "expected shape " \o ToString(w.res[1].sh)
     ELSE IF e.v # w.res[1].v THEN what \o "expected " \o ToString(w.res[1].v)
     ELSE IF e.a2 # e.a \/ e.b2 # e.b THEN what \o "an operand was changed" ELSE ""
Next == /\ ~done /\ done' = TRUE /\ h' = h /\ err' = Check(H[h])
Conform == err = ""
Consumed_All == TLCGet("distinct") = 2 * Len(H)
=============================================================================
