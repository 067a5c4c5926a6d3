----------------------------- MODULE ArithTrace -----------------------------
EXTENDS ArithOps, IOUtils, Json
H == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, done, err
Init == h \in 1..Len(H) /\ done = FALSE /\ err = ""
(* the scalar functions themselves, where the specification defines them *)
CheckTable(e) ==
  IF ~HasExact(e.ty) THEN ""
  ELSE LET nums == Nums(e.ty)
           two == Len(e.args) = 2
           want == IF e.op \in {"rotate_left", "rotate_right"}
                   THEN [i \in DOMAIN nums |-> [j \in DOMAIN PoolN |-> ExactRot(e.ty, e.op, nums[i], <<0, 1, 2, 3, 5, 31, 32, 64>>[j])]]
                   ELSE IF two THEN [i \in DOMAIN nums |-> [j \in DOMAIN nums |-> Exact2(e.ty, e.op, nums[i], nums[j])]]
                   ELSE [i \in DOMAIN nums |-> Exact1(e.ty, e.op, nums[i])]
       IN IF e.tab = want THEN "" ELSE "scalar table of " \o e.op \o " on " \o e.ty \o ": specified " \o ToString(want)
Operand(a) == Ten(a.sh, [i \in DOMAIN a.v |-> a.v[i] + 1])
Expect(e, T) ==
  LET A == [k \in DOMAIN e.args |-> TLCEval(Operand(e.args[k]))]
  IN CASE Len(A) = 1 -> Ok1(Map1(A[1], LAMBDA x : T[x]))
       [] Len(A) = 2 -> Guard(BcOk(A[1].sh, A[2].sh), Ok1(Map2(A[1], A[2], LAMBDA x, y : T[x][y])))
       [] Len(A) = 3 -> Guard(Map3Ok(A[1], A[2], A[3]), Ok1(Map3(A[1], A[2], A[3], LAMBDA x, y, z : T[x][y][z])))
CheckCase(e) ==
  LET w0 == Expect(e, H[e.tab].tab)
      w == IF w0.out = "ok" /\ \E i \in DOMAIN w0.res[1].v : w0.res[1].v[i] = "panic" THEN Rej ELSE w0
      what == e.op \o " on " \o e.ty \o " form " \o ToString(e.form) \o ": "
  IN IF H[e.tab].k # "table" \/ H[e.tab].op # e.op \/ H[e.tab].ty # e.ty THEN "internal: wrong table"
     ELSE IF \E k \in 1..(Len(e.after) \div 2) : e.after[2 * k - 1] # e.after[2 * k] THEN what \o "an operand was changed"
     ELSE IF e.ok # (w.out = "ok") THEN what \o "expected " \o w.out
     ELSE IF ~e.ok THEN ""
     ELSE IF e.sh # w.res[1].sh THEN what \o "expected shape " \o ToString(w.res[1].sh)
     ELSE IF e.v # w.res[1].v THEN what \o "expected values " \o ToString(w.res[1].v)
     ELSE ""
Next == /\ ~done /\ done' = TRUE /\ h' = h
        /\ \E e \in {H[h]} : err' = IF e.k = "table" THEN CheckTable(e) ELSE CheckCase(e)
Conform == err = ""
Consumed_All == TLCGet("distinct") = 2 * Len(H)
=============================================================================
