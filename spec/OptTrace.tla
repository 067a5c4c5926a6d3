------------------------------ MODULE OptTrace ------------------------------
EXTENDS OptOps, IOUtils, Json, TLC
H == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, err
Init == h \in 1..Len(H) /\ l = 0 /\ err = ""
Next == /\ l = 0 /\ l' = 1 /\ h' = h
        /\ err' = IF H[h].r = Final(H[h].fs, H[h].ops) THEN "" ELSE "expected field values " \o ToString(Final(H[h].fs, H[h].ops)) \o ", got " \o ToString(H[h].r)
Conform == err = ""
Consumed_All == TLCGet("distinct") = 2 * Len(H)
=============================================================================
