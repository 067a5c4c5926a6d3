-------------------------------- MODULE Seed --------------------------------
(***************************************************************************)
(* The claim of a seed by a thread's first draw, at the grain of the       *)
(* accesses to the shared register: load, then compare-and-swap, retrying  *)
(* when the register changed in between; any thread may reseed at any      *)
(* time.  Refines SeedAtomic (checked), and every thread gets its seed     *)
(* (liveness, lock-freedom: a swap only fails because another step         *)
(* succeeded).                                                             *)
(***************************************************************************)
EXTENDS SeedAtomic
CONSTANT MaxSets
VARIABLES pc, old
vars == <<reg, used, epoch, at, pc, old>>
Init_ == AInit /\ pc = [t \in Threads |-> "start"] /\ old = [t \in Threads |-> None]
Load(t) == /\ pc[t] = "start"
           /\ pc' = [pc EXCEPT ![t] = "loaded"] /\ old' = [old EXCEPT ![t] = reg]
           /\ UNCHANGED <<reg, used, epoch, at>>
Swap(t) == /\ pc[t] = "loaded"
           /\ IF reg = old[t]
              THEN /\ reg' = <<old[t][1], old[t][2] + 1>>
                   /\ used' = [used EXCEPT ![t] = reg']
                   /\ at' = [at EXCEPT ![t] = epoch]
                   /\ pc' = [pc EXCEPT ![t] = "done"]
              ELSE pc' = [pc EXCEPT ![t] = "start"] /\ UNCHANGED <<reg, used, at>>
           /\ UNCHANGED <<old, epoch>>
Set_(s) == epoch < MaxSets /\ Reseed(s) /\ UNCHANGED <<pc, old>>
Done == \A t \in Threads : pc[t] = "done"
Next_ == (\E t \in Threads : Load(t) \/ Swap(t)) \/ (\E s \in Seeds : Set_(s)) \/ (Done /\ UNCHANGED vars)
Spec == Init_ /\ [][Next_]_vars /\ WF_vars(\E t \in Threads : Load(t) \/ Swap(t))
Refines == ASpec
AllServed == <>Done
=============================================================================
