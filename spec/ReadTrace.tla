----------------------------- MODULE ReadTrace -----------------------------
EXTENDS ReadOps, IOUtils, Json, TLC
H == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, err
Fails(e) == e.k \in {"missing", "dir", "nodir", "empty_name", "dangling"}
(* files of the system: what they contain is read independently before and after *)
Sys(e) == e.k \in {"proc", "sys"}
Verdict(e) ==
  IF Fails(e) THEN (IF e.out = "err" THEN "" ELSE "a file that cannot be read gave data or a panic")
  ELSE IF Sys(e) /\ ~e.there THEN ""
  ELSE IF e.k = "fifo" /\ e.werr # "" THEN ""           \* the case could not be set up
  ELSE IF e.out # "ok" THEN "an existing file was not read"
  ELSE IF e.k = "big" THEN
       LET len == Total(e.ch)  at == Marks(len) IN
       IF e.rsh # <<len>> THEN "not as many bytes as the file has"
       ELSE IF e.el # [j \in 1..Len(at) |-> Byte(e.seed, at[j])] \/ e.differ # 0 THEN "not the bytes of the file" ELSE ""
  ELSE IF e.rsh # <<Len(e.el)>> THEN "wrong shape"
  ELSE IF e.k \in {"grow", "shrink"} THEN      \* fired: the change was made when the first bytes were asked for
       (IF e.el = Content(e.seed, 0, IF ~e.fired THEN e.ch[1] ELSE IF e.k = "shrink" THEN e.keep ELSE Total(e.ch)) THEN ""
        ELSE "not the bytes the file delivers until its end")
  ELSE IF e.el # (IF Sys(e) THEN e.want ELSE Content(e.seed, 0, Total(e.ch))) THEN "not the bytes of the file"
  ELSE ""
Init == h \in 1..Len(H) /\ l = 0 /\ err = ""
Next == l = 0 /\ l' = 1 /\ h' = h /\ err' = Verdict(H[h])
Conform == err = ""
Consumed_All == TLCGet("distinct") = 2 * Len(H)
=============================================================================
