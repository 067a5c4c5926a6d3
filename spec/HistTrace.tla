----------------------------- MODULE HistTrace -----------------------------
EXTENDS HistOps, IOUtils, Json, TLC
H == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, err
NB(e) == IF e.arg = 0 THEN 10 ELSE e.nb        \* arg 0: no argument, the default
OneBin(c, n) == \E b \in DOMAIN c : c[b] = n /\ \A a \in DOMAIN c : a # b => c[a] = 0
V1(e) ==
  LET lo == Lo(e.x)  w == Hi(e.x) - Lo(e.x)  nb == NB(e) IN
  IF e.out # "ok" THEN "rejected"
  ELSE IF e.csh # <<nb>> \/ Len(e.c) # nb THEN "wrong number of bins"
  ELSE IF e.exsh # <<nb + 1>> \/ ~EdgesOk(e.ex, lo, w, nb) THEN "wrong edges"
  ELSE IF Total(e.c) # Len(e.x) THEN "counts do not add up"
  ELSE IF w = 0 THEN (IF OneBin(e.c, Len(e.x)) THEN "" ELSE "equal samples in different bins")
  ELSE IF CountsOk(e.c, e.x, lo, w, nb) THEN "" ELSE "wrong counts"
(* bin choices per coordinate: a constant coordinate goes to one bin, whichever *)
V2(e) ==
  LET lx == Lo(e.x)  wx == Hi(e.x) - Lo(e.x)  ly == Lo(e.y)  wy == Hi(e.y) - Lo(e.y)  nb == NB(e)
      clear == \A i \in DOMAIN e.x : (wx = 0 \/ ~OnEdge(e.x[i], lx, wx, nb)) /\ (wy = 0 \/ ~OnEdge(e.y[i], ly, wy, nb))
      want(a, b, r, q) == FoldLeft(LAMBDA s, i : IF (IF wx = 0 THEN a ELSE Bin(e.x[i], lx, wx, nb)) = q /\ (IF wy = 0 THEN b ELSE Bin(e.y[i], ly, wy, nb)) = r THEN s + 1 ELSE s,
                                   0, [i \in 1..Len(e.x) |-> i])
      A == IF wx = 0 THEN 0..(nb - 1) ELSE {0}
      B_ == IF wy = 0 THEN 0..(nb - 1) ELSE {0}
  IN IF e.out # "ok" THEN "rejected"
     ELSE IF e.csh # <<nb, nb>> \/ Len(e.c) # nb * nb THEN "wrong shape"
     ELSE IF e.exsh # <<nb + 1>> \/ ~EdgesOk(e.ex, lx, wx, nb) THEN "wrong x edges"
     ELSE IF e.eysh # <<nb + 1>> \/ ~EdgesOk(e.ey, ly, wy, nb) THEN "wrong y edges"
     ELSE IF Total(e.c) # Len(e.x) THEN "counts do not add up"
     ELSE IF ~clear THEN ""            \* e.g. the default bin number chosen: positions of edge samples are open
     ELSE IF \E a \in A, b \in B_ : \A r \in 0..(nb - 1), q \in 0..(nb - 1) : e.c[r * nb + q + 1] = want(a, b, r, q) THEN "" ELSE "wrong counts"
Bad1(e) == Len(e.bsh) # 1
Bad2(e) == ~(Len(e.bsh) = 2 /\ e.bsh[2] = 2)
(* every sample was given e.rep times *)
Once(e) == IF e.out # "ok" THEN e ELSE [e EXCEPT !.c = [b \in DOMAIN e.c |-> e.c[b] \div e.rep]]
Whole(e) == e.out = "ok" => \A b \in DOMAIN e.c : e.c[b] % e.rep = 0
Verdict(e) ==
  CASE e.k \in {"h1", "h2"} /\ ~Whole(e) -> "equal samples in different bins, or lost"
    [] e.k = "h1" -> V1(Once(e))
    [] e.k = "h2" -> V2(Once(e))
    [] e.k = "h1bad" -> IF Bad1(e) = (e.out = "panic") THEN "" ELSE "a tensor of rank 1 is required"
    [] e.k = "h2bad" -> IF Bad2(e) = (e.out = "panic") THEN "" ELSE "a matrix with two columns is required"
    [] e.k = "zero" -> IF e.out = "panic" THEN "" ELSE "zero bins accepted"
Init == h \in 1..Len(H) /\ l = 0 /\ err = ""
Next == l = 0 /\ l' = 1 /\ h' = h /\ err' = Verdict(H[h])
Conform == err = ""
Consumed_All == TLCGet("distinct") = 2 * Len(H)
=============================================================================
