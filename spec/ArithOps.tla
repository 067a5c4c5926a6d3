------------------------------ MODULE ArithOps ------------------------------
(***************************************************************************)
(* The functions offered per element type, the value pools the operands    *)
(* are drawn from, and exact integer semantics for the 8- and 16-bit       *)
(* types, booleans and symbolic operands.  For all other types the scalar  *)
(* function itself is the definition: the harness reports its value for    *)
(* every combination of pool values (a "table").                           *)
(***************************************************************************)
EXTENDS TensorOps
IntTys == <<"i8", "i16", "i32", "i64", "i128", "isize", "u8", "u16", "u32", "u64", "u128", "usize">>
SignedTys == <<"si8", "si16", "si32", "si64", "si128", "sisize">>
FloatTys == <<"f32", "f64">>
CxTys == <<"c32", "c64">>
BinOps == <<"add", "sub", "mul", "div", "rem", "and", "or", "xor", "shl", "shr">>
ArOps == SubSeq(BinOps, 1, 5)
BitOps == SubSeq(BinOps, 6, 8)
Int1 == <<"count_ones", "count_zeros", "leading_ones", "leading_zeros", "trailing_ones", "trailing_zeros", "swap_bytes",
          "reverse_bits", "to_be", "to_le", "not", "not_ref">>
Int2 == <<"min", "max">>
IntRot == <<"rotate_left", "rotate_right">>
Sgn1 == <<"abs", "neg_fn", "is_negative", "is_positive", "neg", "neg_ref", "square">>
Sgn2 == <<"abs_sub">>
Flt1 == <<"floor", "ceil", "round", "trunc", "fract", "signum", "recip", "sqrt", "exp", "exp2", "ln", "log2", "log10", "to_degrees",
          "to_radians", "cbrt", "sin", "asin", "sinh", "asinh", "cos", "acos", "cosh", "acosh", "tan", "atan", "tanh", "atanh",
          "exp_m1", "ln_1p", "sin_cos">>
Flt2 == <<"powf", "log", "hypot", "atan2", "copysign">>
Cx1 == <<"re", "im", "norm_sqr", "conj", "inv", "l1_norm", "norm", "arg", "to_polar", "from_polar", "finv">>
CxRe == <<"scale", "unscale", "expf">>
CxCx == <<"powc", "fdiv">>

Strs(s) == [i \in DOMAIN s |-> ToString(s[i])]
PoolI8 == <<1, 2, 3, 5, 0, 7, -1, -3, 127, -128, 100, -77>>
PoolU8 == <<1, 2, 3, 5, 0, 7, 200, 100, 255, 128, 33>>
PoolI16 == <<1, 2, 3, 5, 0, 7, -1, -3, 32767, -32768, 1000, -12345>>
PoolU16 == <<1, 2, 3, 5, 0, 7, 15, 256, 65535, 32768, 4660>>
PoolSym == <<1, 2, 3, 4, 5, 6>>
PoolBool == <<0, 1>>
PoolInt == <<"1", "2", "3", "5", "0", "7", "-1", "-3", "MAX", "MIN", "12345678", "65536", "-65536", "46341">>
PoolUint == <<"1", "2", "3", "5", "0", "7", "31", "100000", "MAX", "12345678", "65536", "64">>
PoolF == <<"1.5", "-2.25", "0.5", "3", "0.3", "-0.7", "2", "0", "-0", "inf", "-inf", "nan", "1e10", "1e-3", "TINY", "0.25", "-3.5", "2.5", "10", "-1", "1e30">>
(* one operand: also the neighbourhood of rounding ties, of the largest exact integers and of over- and underflow *)
PoolF1 == PoolF \o <<"1", "0.49999997", "-0.49999997", "0.49999999999999994", "8388609", "-8388609", "4194304.5", "4503599627370497", "2251799813685248.5", "0.99999994",
                     "1e-10", "-1e-10", "-1e30", "88.8", "-104", "128", "-150", "710", "-746", "1000", "100000", "MAX", "SUB", "3.1415927", "1.5707964", "360", "8", "27", "16777217", "1e-40", "1.0000001">>
PoolF3 == <<"1.5", "-2.25", "0.3", "3", "-0", "inf", "1e10">>
PoolC == <<"1.5,0.5", "-2,0.25", "0.5,-3", "0,1", "1,0", "-1.5,-0.5", "0,0", "2,-0", "1e20,1e20", "1e-25,-1e-25", "inf,1", "3,4", "1,nan">>
PoolN == <<"0", "1", "2", "3", "5", "31", "32", "64">>
PoolP == <<"0", "1", "2", "3", "-1", "-2", "5">>
Nums(ty) == CASE ty \in {"i8", "si8"} -> PoolI8 [] ty = "u8" -> PoolU8 [] ty \in {"i16", "si16"} -> PoolI16 [] ty = "u16" -> PoolU16
              [] ty = "sym" -> PoolSym [] ty = "bool" -> PoolBool [] OTHER -> <<>>
Pool(ty) == CASE Nums(ty) # <<>> -> Strs(Nums(ty))
              [] ty \in {"i32", "i64", "i128", "isize", "si32", "si64", "si128", "sisize", "mixed"} -> PoolInt
              [] ty \in {"u32", "u64", "u128", "usize"} -> PoolUint
              [] ty \in {"f32", "f64"} -> PoolF
              [] ty \in {"c32", "c64"} -> PoolC

(* --- exact integer semantics --- *)
Bits(ty) == IF ty \in {"i8", "u8", "si8"} THEN 8 ELSE 16
Sgnd(ty) == ty \in {"i8", "i16", "si8", "si16"}
InRange(ty, x) == IF Sgnd(ty) THEN x >= -(2 ^ (Bits(ty) - 1)) /\ x < 2 ^ (Bits(ty) - 1) ELSE x >= 0 /\ x < 2 ^ Bits(ty)
Wrap(ty, x) == LET m == x % (2 ^ Bits(ty)) IN IF Sgnd(ty) /\ m >= 2 ^ (Bits(ty) - 1) THEN m - 2 ^ Bits(ty) ELSE m
Raw(ty, x) == x % (2 ^ Bits(ty))
AbsI(x) == IF x < 0 THEN -x ELSE x
TDiv(a, b) == LET q == AbsI(a) \div AbsI(b) IN IF (a < 0) # (b < 0) THEN -q ELSE q
P == "panic"
Chk(ty, x) == IF InRange(ty, x) THEN ToString(x) ELSE P
B2(b) == IF b THEN "1" ELSE "0"
BitAt(ty, x, k) == (Raw(ty, x) \div (2 ^ k)) % 2        \* k-th bit, least significant first
FromBits(ty, F(_)) == Wrap(ty, FoldLeft(LAMBDA acc, k : acc + F(k) * (2 ^ k), 0, [k \in 1..Bits(ty) |-> k - 1]))
RECURSIVE RunLen(_, _, _, _, _)
RunLen(ty, x, k, dir, bit) == IF k < 0 \/ k >= Bits(ty) \/ BitAt(ty, x, k) # bit THEN 0 ELSE 1 + RunLen(ty, x, k + dir, dir, bit)
Ones(ty, x) == FoldLeft(LAMBDA acc, k : acc + BitAt(ty, x, k), 0, [k \in 1..Bits(ty) |-> k - 1])

ExactInt2(ty, op, a, b) ==
  CASE op = "add" -> Chk(ty, a + b) [] op = "sub" -> Chk(ty, a - b)
    [] op = "mul" -> IF AbsI(a) > 20000 /\ AbsI(b) > 20000 THEN P ELSE Chk(ty, a * b)
    [] op = "div" -> IF b = 0 THEN P ELSE Chk(ty, TDiv(a, b))
    [] op = "rem" -> IF b = 0 \/ ~InRange(ty, TDiv(a, b)) THEN P ELSE ToString(a - TDiv(a, b) * b)
    [] op = "and" -> ToString(Wrap(ty, Raw(ty, a) & Raw(ty, b)))
    [] op = "or"  -> ToString(Wrap(ty, Raw(ty, a) | Raw(ty, b)))
    [] op = "xor" -> ToString(Wrap(ty, Raw(ty, a) ^^ Raw(ty, b)))
    [] op = "shl" -> IF b < 0 \/ b >= Bits(ty) THEN P ELSE ToString(FromBits(ty, LAMBDA k : IF k >= b THEN BitAt(ty, a, k - b) ELSE 0))
    [] op = "shr" -> IF b < 0 \/ b >= Bits(ty) THEN P ELSE ToString(a \div (2 ^ b))
    [] op = "min" -> ToString(MinI(a, b)) [] op = "max" -> ToString(MaxI(a, b))
    [] op = "abs_sub" -> IF a <= b THEN "0" ELSE Chk(ty, a - b)
ExactInt1(ty, op, a) ==
  CASE op \in {"not", "not_ref"} -> ToString(Wrap(ty, -a - 1))
    [] op \in {"neg", "neg_ref", "neg_fn"} -> Chk(ty, -a)
    [] op = "abs" -> Chk(ty, AbsI(a))
    [] op = "is_negative" -> B2(a < 0) [] op = "is_positive" -> B2(a > 0)
    [] op = "square" -> IF AbsI(a) > 20000 THEN P ELSE Chk(ty, a * a)
    [] op = "count_ones" -> ToString(Ones(ty, a)) [] op = "count_zeros" -> ToString(Bits(ty) - Ones(ty, a))
    [] op = "leading_ones" -> ToString(RunLen(ty, a, Bits(ty) - 1, -1, 1)) [] op = "leading_zeros" -> ToString(RunLen(ty, a, Bits(ty) - 1, -1, 0))
    [] op = "trailing_ones" -> ToString(RunLen(ty, a, 0, 1, 1)) [] op = "trailing_zeros" -> ToString(RunLen(ty, a, 0, 1, 0))
    [] op = "reverse_bits" -> ToString(FromBits(ty, LAMBDA k : BitAt(ty, a, Bits(ty) - 1 - k)))
    [] op \in {"swap_bytes", "to_be"} -> ToString(FromBits(ty, LAMBDA k : BitAt(ty, a, (k + Bits(ty) - 8) % Bits(ty))))
    [] op = "to_le" -> ToString(a)          \* the library is built for little-endian targets here
ExactRot(ty, op, a, n) == ToString(FromBits(ty, LAMBDA k : BitAt(ty, a, (IF op = "rotate_left" THEN k - n ELSE k + n) % Bits(ty))))
SymK(op) == CASE op = "add" -> 100 [] op = "sub" -> 200 [] op = "mul" -> 300 [] op = "div" -> 400 [] op = "rem" -> 500
              [] op = "and" -> 600 [] op = "or" -> 700 [] op = "xor" -> 800 [] op = "shl" -> 900 [] op = "shr" -> 1000
ExactBool2(op, a, b) == ToString(CASE op = "and" -> a * b [] op = "or" -> MaxI(a, b) [] op = "xor" -> (a + b) % 2)
HasExact(ty) == Nums(ty) # <<>>
Exact2(ty, op, a, b) == CASE ty = "sym" -> ToString(31 * a + 7 * b + SymK(op)) [] ty = "bool" -> ExactBool2(op, a, b) [] OTHER -> ExactInt2(ty, op, a, b)
Exact1(ty, op, a) == CASE ty = "sym" -> ToString(IF op \in {"neg", "neg_ref"} THEN 13 * a + 1 ELSE 17 * a + 2)
                       [] ty = "bool" -> ToString(1 - a) [] OTHER -> ExactInt1(ty, op, a)

(* --- the functions: [op, ty, pools] --- *)
Fn(op, ty, pools, forms) == [op |-> op, ty |-> ty, pools |-> pools, forms |-> forms]
Cross(ops, tys, F(_, _)) == Flatten_([i \in DOMAIN tys |-> [j \in DOMAIN ops |-> F(ops[j], tys[i])]])
All8 == <<0, 1, 2, 3, 4, 5, 6, 7>>
NoLeft == <<0, 1, 2, 3, 4, 5>>
F0 == <<0>>
Fns ==
  Cross(BinOps, IntTys, LAMBDA o, t : Fn(o, t, <<Pool(t), Pool(t)>>, All8))
  \o Cross(Int2, IntTys, LAMBDA o, t : Fn(o, t, <<Pool(t), Pool(t)>>, <<0, 1, 9>>))
  \o Cross(Int1, IntTys, LAMBDA o, t : Fn(o, t, <<Pool(t)>>, F0))
  \o Cross(IntRot, IntTys, LAMBDA o, t : Fn(o, t, <<Pool(t), PoolN>>, F0))
  \o Cross(Sgn1, SignedTys, LAMBDA o, t : Fn(o, t, <<Pool(t)>>, F0))
  \o Cross(Sgn2, SignedTys, LAMBDA o, t : Fn(o, t, <<Pool(t), Pool(t)>>, F0))
  \o Cross(ArOps, FloatTys, LAMBDA o, t : Fn(o, t, <<PoolF, PoolF>>, All8))
  \o Cross(Sgn1, FloatTys, LAMBDA o, t : Fn(o, t, <<PoolF1>>, F0))
  \o Cross(Sgn2 \o Flt2, FloatTys, LAMBDA o, t : Fn(o, t, <<PoolF, PoolF>>, F0))
  \o Cross(Flt1, FloatTys, LAMBDA o, t : Fn(o, t, <<PoolF1>>, F0))
  \o Cross(<<"powi">>, FloatTys, LAMBDA o, t : Fn(o, t, <<PoolF, PoolP>>, <<0, 1, 9>>))
  \o Cross(<<"mul_add">>, FloatTys, LAMBDA o, t : Fn(o, t, <<PoolF3, PoolF3, PoolF3>>, F0))
  \o Cross(BitOps, <<"bool">>, LAMBDA o, t : Fn(o, t, <<Pool(t), Pool(t)>>, All8))
  \o Cross(<<"not", "not_ref">>, <<"bool">>, LAMBDA o, t : Fn(o, t, <<Pool(t)>>, F0))
  \o Cross(BinOps, <<"sym">>, LAMBDA o, t : Fn(o, t, <<Pool(t), Pool(t)>>, NoLeft))
  \o Cross(<<"neg", "neg_ref", "not", "not_ref">>, <<"sym">>, LAMBDA o, t : Fn(o, t, <<Pool(t)>>, F0))
  \o Cross(<<"shl", "shr">>, <<"mixed">>, LAMBDA o, t : Fn(o, t, <<PoolInt, PoolN>>, NoLeft))
  \o Cross(ArOps, CxTys, LAMBDA o, t : Fn(o, t, <<PoolC, PoolC>>, NoLeft))
  \o Cross(Cx1, CxTys, LAMBDA o, t : Fn(o, t, <<PoolC>>, F0))
  \o Cross(CxRe, CxTys, LAMBDA o, t : Fn(o, t, <<PoolC, PoolF>>, F0))
  \o Cross(CxCx, CxTys, LAMBDA o, t : Fn(o, t, <<PoolC, PoolC>>, F0))
  \o Cross(<<"powu">>, CxTys, LAMBDA o, t : Fn(o, t, <<PoolC, SubSeq(PoolN, 1, 5)>>, F0))
=============================================================================
