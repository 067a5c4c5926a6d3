------------------------------ MODULE ShareRc ------------------------------
(***************************************************************************)
(* Shared storage at the grain of its reference count: threads hold        *)
(* handles; cloning increments the count atomically (only possible while   *)
(* holding a handle); dropping decrements it atomically and the thread     *)
(* that took it to zero destroys the elements, in a later step.  Checked:  *)
(* nothing is destroyed while a handle exists or a read is under way, and  *)
(* exactly once.                                                           *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANTS Threads, MaxHandles
VARIABLES count, handles, pc, freed
vars == <<count, handles, pc, freed>>
Sum(f) == LET RECURSIVE S(_)  S(D) == IF D = {} THEN 0 ELSE LET x == CHOOSE x \in D : TRUE IN f[x] + S(D \ {x}) IN S(Threads)
Init == /\ handles \in [Threads -> 0..1] /\ Sum(handles) > 0
        /\ count = Sum(handles) /\ pc = [t \in Threads |-> "idle"] /\ freed = 0
Clone(t) == /\ pc[t] = "idle" /\ handles[t] > 0 /\ Sum(handles) < MaxHandles
            /\ count' = count + 1 /\ handles' = [handles EXCEPT ![t] = @ + 1] /\ UNCHANGED <<pc, freed>>
Give(t, u) == /\ pc[t] = "idle" /\ handles[t] > 0 /\ t # u
              /\ handles' = [handles EXCEPT ![t] = @ - 1, ![u] = @ + 1] /\ UNCHANGED <<count, pc, freed>>
ReadBegin(t) == pc[t] = "idle" /\ handles[t] > 0 /\ pc' = [pc EXCEPT ![t] = "reading"] /\ UNCHANGED <<count, handles, freed>>
ReadEnd(t) == pc[t] = "reading" /\ pc' = [pc EXCEPT ![t] = "idle"] /\ UNCHANGED <<count, handles, freed>>
Drop(t) == /\ pc[t] = "idle" /\ handles[t] > 0
           /\ handles' = [handles EXCEPT ![t] = @ - 1] /\ count' = count - 1
           /\ pc' = IF count = 1 THEN [pc EXCEPT ![t] = "freeing"] ELSE pc
           /\ UNCHANGED freed
Free(t) == pc[t] = "freeing" /\ freed' = freed + 1 /\ pc' = [pc EXCEPT ![t] = "idle"] /\ UNCHANGED <<count, handles>>
Over == Sum(handles) = 0 /\ \A t \in Threads : pc[t] = "idle"
Next == \/ \E t \in Threads : Clone(t) \/ ReadBegin(t) \/ ReadEnd(t) \/ Drop(t) \/ Free(t) \/ \E u \in Threads : Give(t, u)
        \/ Over /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
NotWhileHeld == (freed > 0 \/ \E t \in Threads : pc[t] = "freeing") => Sum(handles) = 0 /\ \A t \in Threads : pc[t] # "reading"
Once == freed <= 1
NoLeak == Over => freed = 1
CountRight == count = Sum(handles)
=============================================================================
