----------------------------- MODULE FrameTrace -----------------------------
(***************************************************************************)
(* Immutability beside any function: while a function ran on operands,     *)
(* tensors sharing the operands' storage were kept; each must still have   *)
(* the shape and contents it had.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, IOUtils, Json
H == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, done, err
Init == h \in 1..Len(H) /\ done = FALSE /\ err = ""
Check(e) ==
  LET bad == {i \in DOMAIN e.kept : e.kept[i].sh0 # e.kept[i].sh1 \/ e.kept[i].v0 # e.kept[i].v1}
  IN IF bad = {} THEN "" ELSE "a tensor sharing storage with operand " \o ToString(CHOOSE i \in bad : TRUE) \o " changed while a function of family " \o IOEnv.FAMILY \o " ran"
Next == /\ ~done /\ done' = TRUE /\ h' = h /\ err' = Check(H[h])
Conform == err = ""
Consumed_All == TLCGet("distinct") = 2 * Len(H)
=============================================================================
