------------------------------- MODULE MatOps -------------------------------
(* Matrix products by their sum-of-products definition, on integer-valued matrices. *)
EXTENDS TensorOps
R2(t) == t.sh[Rank(t) - 1]
C2(t) == t.sh[Rank(t)]
Lead(t) == SubSeq(t.sh, 1, Rank(t) - 2)
Tr(t) == Transpose(t)
(* integers extended with the values that are not finite: 88888881 is +infinity, -88888881 is -infinity, 88888882 is not a number *)
PInf == 88888881
NInf == -88888881
NotNum == 88888882
Spec(x) == x \in {PInf, NInf, NotNum}
XMul(x, y) == IF ~Spec(x) /\ ~Spec(y) THEN x * y
              ELSE IF x = NotNum \/ y = NotNum \/ x = 0 \/ y = 0 THEN NotNum ELSE IF (x < 0) = (y < 0) THEN PInf ELSE NInf
XAdd(x, y) == IF ~Spec(x) /\ ~Spec(y) THEN x + y
              ELSE IF x = NotNum \/ y = NotNum THEN NotNum ELSE IF Spec(x) /\ Spec(y) /\ x # y THEN NotNum ELSE IF Spec(x) THEN x ELSE y
Dot(n, F(_), G(_)) == FoldLeft(LAMBDA acc, k : XAdd(acc, XMul(F(k), G(k))), 0, [k \in 1..n |-> k - 1])
MatMulOk(a, b) == Rank(a) >= 2 /\ Rank(a) = Rank(b) /\ Lead(a) = Lead(b) /\ C2(a) = R2(b)
MatMul(a, b) ==
  LET m == R2(a)  n == C2(b)  K == C2(a)
  IN Build(Lead(a) \o <<m, n>>, LAMBDA ix :
       LET z == SubSeq(ix, 1, Len(ix) - 2)  i == ix[Len(ix) - 1]  j == ix[Len(ix)]
       IN Dot(K, LAMBDA k : At(a, z \o <<i, k>>), LAMBDA k : At(b, z \o <<k, j>>)))
MatMulT(a0, b0, mode) ==
  IF Rank(a0) < 2 \/ Rank(b0) < 2 THEN Rej
  ELSE LET a == TLCEval(IF mode \in {"A", "AB"} THEN Tr(a0) ELSE a0)
           b == TLCEval(IF mode \in {"B", "AB"} THEN Tr(b0) ELSE b0)
       IN Guard(MatMulOk(a, b), Ok1(MatMul(a, b)))
(* a matrix (or batch of matrices) applied to every row vector of x; a lower-rank batch of matrices is repeated *)
MatVec(a0, x, mode) ==
  IF Rank(a0) < 2 \/ mode \in {"B", "AB"} THEN Rej
  ELSE LET a == TLCEval(IF mode = "A" THEN Tr(a0) ELSE a0)
           xl == IF Rank(x) >= 2 THEN Lead(x) ELSE <<>>
           al == Lead(a)
       IN IF Len(al) > Len(xl) /\ Prod(al) = Prod(xl) THEN [out |-> "any", res |-> <<>>]    \* extra unit batch dimensions: left open
          ELSE Guard(/\ Rank(x) >= 1 /\ C2(a) = LastDim(x.sh)
                /\ Len(al) <= Len(xl) /\ TailFrom(xl, Len(al)) = al,
                Ok1(Build(Append(Front(x.sh), R2(a)), LAMBDA ix :
                  LET z == Front(ix)
                      za == IF al = <<>> THEN <<>> ELSE TailFrom(SubSeq(z, 1, Len(xl)), Len(al))
                  IN Dot(C2(a), LAMBDA k : At(a, za \o <<LastDim(ix), k>>), LAMBDA k : At(x, Append(z, k))))))
Product(e) ==
  LET a == Ten(e.ash, e.a)  b == Ten(e.bsh, e.b)
  IN IF e.op = "matmul" THEN MatMulT(a, b, e.mode) ELSE MatVec(a, b, e.mode)
=============================================================================
