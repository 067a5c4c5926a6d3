----------------------------- MODULE RandTrace -----------------------------
(* Behaviour of one generator: state s; each request advances it by one (next, uniform) or two (normal) steps. *)
EXTENDS RandOps, IOUtils, Json
H == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, s, err
Init == h \in 1..Len(H) /\ l = 0 /\ err = "" /\ s = IF H[h].text THEN TextSeed(H[h].w, H[h].bytes) ELSE H[h].seed
Got(e, i) == e.ev[i]
Good(w, op, g, u1, u2) ==
  CASE op = "next" -> g.m = u1
    [] op = "skip" -> g.m = u2
    [] op = "uniform" -> g.b = "" /\ UniformHolds(w, u1, g.m)
    [] op = "normal" -> g.b = "" /\ NormalHolds(w, u1, u2, Of(g))
Next == /\ err = "" /\ l < Len(H[h].ops) /\ l' = l + 1 /\ h' = h
        /\ \E w \in {H[h].w} : \E op \in {H[h].ops[l + 1]} : \E s1 \in {Step(w, s)} :
           \E s2 \in {IF op = "normal" THEN Step(w, s1) ELSE IF op = "skip" THEN Step(w, Jump(w, H[h].skip - 1, s1)) ELSE s1} :
              /\ s' = s2
              /\ err' = IF Good(w, op, H[h].ev[l + 1], Output(w, s1), Output(w, s2)) THEN ""
                        ELSE "request " \o ToString(l + 1) \o " (" \o op \o ") of the " \o ToString(w) \o "-bit generator: expected output "
                             \o ToString(Output(w, s1)) \o (IF op = "normal" THEN " and " \o ToString(Output(w, s2)) ELSE "")
Conform == err = ""
Consumed_All == TLCGet("distinct") = FoldLeft(LAMBDA acc, x : acc + Len(x.ops) + 1, 0, H)
=============================================================================
