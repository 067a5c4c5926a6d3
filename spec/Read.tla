-------------------------------- MODULE Read --------------------------------
EXTENDS ReadOps
CONSTANTS Portions, MaxBuf, MaxEdits        \* portion lists to explore; largest buffer a read call offers; changes others may make meanwhile
VARIABLES left, got, pc, len, edits
vars == <<left, got, pc, len, edits>>
(* len: what the file delivers altogether, as it stands now *)
Init == left \in Portions /\ len = Total(left) /\ got = 0 /\ pc = "read" /\ edits = MaxEdits
Call == /\ pc = "read"
        /\ IF left = <<>> THEN pc' = "done" /\ UNCHANGED <<left, got>>
           ELSE /\ pc' = pc
                /\ \E b \in 1..MaxBuf : \E k \in 1..(IF b < left[1] THEN b ELSE left[1]) :
                     /\ got' = got + k
                     /\ left' = IF k = left[1] THEN Tail(left) ELSE <<left[1] - k>> \o Tail(left)
        /\ UNCHANGED <<len, edits>>
(* meanwhile somebody appends to the file, or cuts its end off *)
Grow == /\ pc = "read" /\ edits > 0 /\ edits' = edits - 1
        /\ \E k \in 1..2 : left' = Append(left, k) /\ len' = len + k
        /\ UNCHANGED <<got, pc>>
Shrink == /\ pc = "read" /\ edits > 0 /\ edits' = edits - 1 /\ left # <<>>
          /\ left' = Front(left) /\ len' = len - Last(left)
          /\ UNCHANGED <<got, pc>>
Next == Call \/ Grow \/ Shrink
Spec == Init /\ [][Next]_vars /\ WF_vars(Call)
AllBytes == pc = "done" => got = len
Never_more == got <= len
Ends == <>(pc = "done")
PortionsDef == UNION {[1..n -> 1..4] : n \in 0..4}
=============================================================================
