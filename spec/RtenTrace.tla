----------------------------- MODULE RtenTrace -----------------------------
EXTENDS RtenOps, IOUtils, Json
H == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, err
RECURSIVE Pr(_)
Pr(s) == IF s = <<>> THEN 1 ELSE Head(s) * Pr(Tail(s))
(* the elements reported are those at the positions e.at (from 0); out(j): the j-th integer of the generator, from 1 *)
Out_(seed, j) == Output(32, Jump(32, j, seed))
Draws(e, seed) == /\ \A k \in 1..Len(e.at) : e.uni[k].b = "" /\ UniformHolds(32, Out_(seed, e.at[k] + 1), e.uni[k].m)
                  /\ \A k \in 1..Len(e.at) : e.nor[k].b = "" /\ NormalHolds(32, Out_(seed, 2 * e.at[k] + 1), Out_(seed, 2 * e.at[k] + 2), Of(e.nor[k]))
(* the uniform draws are reported with 40 fractional bits *)
IsUniform(e, o) == \A i \in 1..Len(e.at) : Affine(e.el[i], Eighth(o.a), Range_(o), Num(FALSE, LShr(e.uni[i].m, 16)))
(* known finding: uniform tensors filled from the normal stream *)
IsKnown(e, o) == \A i \in 1..Len(e.at) : Affine(e.el[i], Eighth(o.a), Range_(o), Of(e.nor[i]))
IsNormal(e, o) == \A i \in 1..Len(e.at) : Affine(e.el[i], Eighth(o.a), Eighth(o.b), Of(e.nor[i]))
Verdict(e) ==
  LET n == Pr(e.sh)
      o == Options(e.steps)
      seed == TLCEval(SeedOf(o, e.g))
  IN IF e.out # "ok" THEN "rejected"
     ELSE IF e.rsh # e.sh \/ e.len # n THEN "wrong shape"
     ELSE IF ~e.again THEN "a second call with the same options gives different elements"
     ELSE IF ~Draws(e, seed) THEN "the generator is not seeded as the options say"
     ELSE IF e.k = "normal" THEN (IF IsNormal(e, o) THEN "" ELSE "elements are not mean + std * draw")
     ELSE IF IsUniform(e, o) THEN ""
     ELSE IF IsKnown(e, o) THEN (IF PrintT("@KNOWN uniform") THEN "" ELSE "")
     ELSE "elements are not the uniform draws scaled into [min, max]"
Init == h \in 1..Len(H) /\ l = 0 /\ err = ""
Next == l = 0 /\ l' = 1 /\ h' = h /\ err' = Verdict(H[h])
Conform == err = ""
Consumed_All == TLCGet("distinct") = 2 * Len(H)
=============================================================================
