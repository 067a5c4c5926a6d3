------------------------------ MODULE WavTrace ------------------------------
EXTENDS WavOps, IOUtils, Json, TLC
H == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, err
Init == h \in 1..Len(H) /\ l = 0 /\ err = ""
Next == l = 0 /\ l' = 1 /\ h' = h /\ err' = Verdict(H[h].b, H[h])
Conform == err = ""
Consumed_All == TLCGet("distinct") = 2 * Len(H)
=============================================================================
