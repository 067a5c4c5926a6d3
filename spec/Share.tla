------------------------------- MODULE Share -------------------------------
(***************************************************************************)
(* What threads sharing tensors see.  A handle is a window <<buffer, from, *)
(* length>>; each thread has slots.  The elements of a buffer are alive as *)
(* long as some slot of some thread holds a window on it.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
NSlot == 4
Nil == <<0, 0, 0>>
Label(b, i) == b * 100 + i
Denotes(w) == [i \in 1..w[3] |-> Label(w[1], w[2] + i)]
(* s: slots of one thread; e: operation with source slot s, destination slot d, range a, n *)
Enabled(sl, e) ==
  CASE e.o \in {"clone", "reshape", "same"} -> sl[e.s] # Nil
    [] e.o \in {"sub", "flat"} -> sl[e.s] # Nil /\ e.a + e.n <= sl[e.s][3] /\ e.n > 0
    [] e.o \in {"read", "map", "drop", "churn", "move"} -> sl[e.s] # Nil
    [] e.o = "give" -> sl[e.s] # Nil
After(sl, e) ==
  CASE e.o \in {"clone", "reshape"} -> [sl EXCEPT ![e.d] = sl[e.s]]
    [] e.o \in {"sub", "flat"} -> [sl EXCEPT ![e.d] = <<sl[e.s][1], sl[e.s][2] + e.a, e.n>>]
    [] e.o = "move" -> IF e.s = e.d THEN sl ELSE [sl EXCEPT ![e.d] = sl[e.s], ![e.s] = Nil]      \* consumed by a reshape
    [] e.o \in {"drop", "give"} -> [sl EXCEPT ![e.s] = Nil]
    [] OTHER -> sl
(* what the operation shows: the contents of the window read, or of the new window *)
Shown(sl, e) == IF e.o \in {"drop", "give"} THEN <<>> ELSE IF e.o \in {"read", "map", "churn", "same"} THEN Denotes(sl[e.s]) ELSE Denotes(After(sl, e)[e.d])
Held(all) == {w \in UNION {{sl[i] : i \in 1..NSlot} : sl \in {all[t] : t \in DOMAIN all}} : w # Nil}
Alive(all, lens) == FoldLeft(LAMBDA a, b : IF \E w \in Held(all) : w[1] = b THEN a + lens[b] ELSE a, 0, [b \in 1..Len(lens) |-> b])
=============================================================================
