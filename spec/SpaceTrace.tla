----------------------------- MODULE SpaceTrace -----------------------------
EXTENDS SpaceOps, IOUtils, Json
H == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, done, err
Init == h \in 1..Len(H) /\ done = FALSE /\ err = ""
CheckAr(e) ==
  IF e.ok # ArangeOk(e.a, e.z, e.st) THEN "arange: expected ok = " \o ToString(ArangeOk(e.a, e.z, e.st))
  ELSE IF ~e.ok THEN ""
  ELSE LET n == ArangeLen(e.a, e.z, e.st)
       IN IF e.sh # <<n>> THEN "arange: expected " \o ToString(n) \o " elements"
          ELSE IF \E k \in 1..n : ~Finite(e.r[k]) \/ Of(e.r[k]) # Q(e.a + (k - 1) * e.st) THEN "arange: wrong element" ELSE ""
Base(e) == IF e.form \in {0, 1, 2} THEN 10 ELSE e.base     \* forms 0-2 use the default base
CheckSp(e) ==
  LET ok == SpaceOk(e.op, e) IN
  IF e.ok # (ok \/ (e.ssh = e.esh /\ Size(e.ssh) = 0)) THEN e.op \o ": expected ok = " \o ToString(ok)
  ELSE IF ~e.ok THEN ""
  ELSE IF e.sh # SpaceShape(e) THEN e.op \o ": expected shape " \o ToString(SpaceShape(e))
  ELSE IF \E k \in DOMAIN e.r : ~Finite(e.r[k]) THEN e.op \o ": not finite"
  ELSE LET n == Size(e.ssh)
           good(i) == \E p \in {TLCEval(Pts(e, n, i))} :
                      CASE e.op = "linspace" -> LinHolds(p, e.s[i], e.e[i])
                        [] e.op = "geomspace" -> GeomHolds(p, Q(e.s[i]), Q(e.e[i]))
                        [] e.op = "logspace" -> GeomHolds(p, BasePow(Base(e), e.s[i] \div 4), BasePow(Base(e), e.e[i] \div 4))
           bad == {i \in 1..n : ~good(i)}
       IN IF bad = {} THEN "" ELSE e.op \o ": entry " \o ToString(CHOOSE i \in bad : TRUE) \o " is not the specified sequence"
Next == /\ ~done /\ done' = TRUE /\ h' = h
        /\ \E e \in {H[h]} : err' = IF e.op = "arange" THEN CheckAr(e) ELSE CheckSp(e)
Conform == err = ""
Consumed_All == TLCGet("distinct") = 2 * Len(H)
=============================================================================
