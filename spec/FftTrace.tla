------------------------------ MODULE FftTrace ------------------------------
EXTENDS FftOps, IOUtils, Json
H == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, err
Verdict(e) ==
  LET lo == IF e.fl < 0 THEN (e.len \div 2) + 1 ELSE e.fl IN
  IF e.out # "ok" THEN "rejected"
  ELSE IF e.rsh # Append(e.lead, lo) \/ Len(e.el) # lo * Len(e.rows) THEN "wrong shape"
  ELSE IF \E i \in 1..Len(e.rows) : ~RowOk(e.rows[i], SubSeq(e.el, (i - 1) * lo + 1, i * lo)) THEN "a row is not the magnitude spectrum of its own windowed data"
  ELSE ""
Init == h \in 1..Len(H) /\ l = 0 /\ err = ""
Next == l = 0 /\ l' = 1 /\ h' = h /\ err' = Verdict(H[h])
Conform == err = ""
Consumed_All == TLCGet("distinct") = 2 * Len(H)
=============================================================================
