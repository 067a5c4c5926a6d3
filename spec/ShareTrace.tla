----------------------------- MODULE ShareTrace -----------------------------
(***************************************************************************)
(* Recorded histories against Share.  "sched": every step's contents and   *)
(* the number of living elements.  "free": per thread, every step's        *)
(* contents in every repetition (the distinct ones are recorded); at the   *)
(* end nothing lives, nothing was destroyed twice or read when dead.       *)
(***************************************************************************)
EXTENDS Share, IOUtils, Json, TLC
H == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, st, err
Init == h \in 1..Len(H) /\ l = 0 /\ err = "" /\ st = H[h].ini
(* whether tensors are Send, Sync: of ordinary elements; of elements that may not be shared, that are bound to their thread, that may not be moved *)
Crossing == << <<TRUE, TRUE>>, <<TRUE, TRUE>>, <<TRUE, TRUE>>, <<FALSE, FALSE>>, <<FALSE, FALSE>>, <<FALSE, FALSE>> >>
Clean(e) == IF e.k = "bounds" THEN (IF e.b = Crossing THEN "" ELSE "tensors of elements that must not cross threads may cross them, or the reverse: " \o ToString(e.b))
            ELSE IF \E i \in 1..Len(e.fin) : e.fin[i] # <<0, 0, 0>> THEN "at the end <<living, misused, heap faults>> was " \o ToString(e.fin) ELSE ""
(* copied: an operation copied elements instead of sharing them, so the number of living elements is larger *)
Live(e, st2, ev) == e.k = "free" \/ ev.live = Alive(st2, e.len) \/ (ev.copied /\ ev.live >= Alive(st2, e.len))
Next == /\ err = "" /\ h' = h /\ l <= Len(H[h].steps)
        /\ l' = l + 1
        /\ IF l = Len(H[h].steps) THEN st' = st /\ err' = Clean(H[h])
           ELSE \E e \in {H[h].steps[l + 1]} : \E ev \in {H[h].ev[l + 1]} :
             IF e.t = 0 THEN st' = st /\ err' = ""
             ELSE /\ st' = LET s1 == [st EXCEPT ![e.t] = After(@, e)] IN IF e.o = "give" THEN [s1 EXCEPT ![e.u][e.d] = st[e.t][e.s]] ELSE s1
                  /\ err' = IF ev.seen # <<Shown(st[e.t], e)>> THEN "step " \o ToString(l + 1) \o " (" \o e.o \o "): expected contents " \o ToString(Shown(st[e.t], e)) \o ", seen " \o ToString(ev.seen)
                            ELSE IF ~Live(H[h], st', ev) THEN "step " \o ToString(l + 1) \o " (" \o e.o \o "): " \o ToString(ev.live) \o " elements alive, expected " \o ToString(Alive(st', H[h].len))
                            ELSE ""
Conform == err = ""
Consumed_All == TLCGet("distinct") = FoldLeft(LAMBDA a, x : a + Len(x.steps) + 2, 0, H)
=============================================================================
