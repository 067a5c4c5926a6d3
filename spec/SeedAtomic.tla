----------------------------- MODULE SeedAtomic -----------------------------
(***************************************************************************)
(* What per-thread seeding promises.  The seed register holds the last     *)
(* element of a chain, <<s, k>> being the k-th element of the chain of     *)
(* seed s.  A thread's first draw takes the next element in one step; the  *)
(* element is its generator's seed for ever.                               *)
(***************************************************************************)
EXTENDS Integers
CONSTANTS Threads, Seeds
VARIABLES reg, used, epoch, at
(* used[t]: the element, or none; at[t]: the epoch (number of seedings so far) in which it was taken *)
None == <<0, 0>>
AInit == /\ reg = <<1, 0>> /\ used = [t \in Threads |-> None]
         /\ epoch = 0 /\ at = [t \in Threads |-> 0]
Take(t) == /\ used[t] = None
           /\ reg' = <<reg[1], reg[2] + 1>>
           /\ used' = [used EXCEPT ![t] = reg']
           /\ at' = [at EXCEPT ![t] = epoch]
           /\ UNCHANGED epoch
Reseed(s) == reg' = <<s, 0>> /\ epoch' = epoch + 1 /\ UNCHANGED <<used, at>>
ANext == (\E t \in Threads : Take(t)) \/ (\E s \in Seeds : Reseed(s))
ASpec == AInit /\ [][ANext]_<<reg, used, epoch, at>>
(* C20 *)
Taken == {t \in Threads : used[t] # None}
Exclusive == \A t, u \in Taken : t # u /\ at[t] = at[u] => used[t] # used[u]
Prefix == \A t \in Taken : \A k \in 1..(used[t][2] - 1) : \E u \in Taken : at[u] = at[t] /\ used[u] = <<used[t][1], k>>
=============================================================================
