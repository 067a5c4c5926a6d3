-------------------------------- MODULE Emit --------------------------------
(* Hands a generated record to the runner: one line "@@<json>" on TLC's output. *)
LOCAL INSTANCE TLC
LOCAL INSTANCE Sequences
LOCAL INSTANCE Json
EmitRow(x) == PrintT("@@" \o ToJson(x))
=============================================================================
