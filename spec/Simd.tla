-------------------------------- MODULE Simd --------------------------------
(* Vector intrinsics: each operation acts on every lane independently, except*)
(* the horizontal sum, loads and stores.  Lanes hold integers, on which the  *)
(* arithmetic of every instruction set is exact.                             *)
EXTENDS Integers, Sequences
Abs(a) == IF a < 0 THEN -a ELSE a
Scalar(op, a) ==
  CASE op = "Add" -> a[1] + a[2]
    [] op = "Sub" -> a[1] - a[2]
    [] op = "Mul" -> a[1] * a[2]
    [] op = "Div" -> IF a[2] > 0 THEN a[1] \div a[2] ELSE (-a[1]) \div (-a[2])   \* operands chosen divisible
    [] op = "FusedMulAdd" -> a[1] * a[2] + a[3]
    [] op = "FusedMulSub" -> a[1] * a[2] - a[3]
    [] op = "NegFusedMulAdd" -> a[3] - a[1] * a[2]
    [] op = "NegFusedMulSub" -> -(a[1] * a[2]) - a[3]
    [] op = "Abs" -> Abs(a[1])
    [] op = "Sqrt" -> CHOOSE r \in 0..Abs(a[1]) : r * r = a[1]
    [] op = "Upwind" -> IF a[1] > 0 THEN 1 ELSE 0
    [] op = "Const" -> a[1]
    [] op = "SetZero" -> 0
    [] op = "Read" -> a[1]
Arity(op) == CASE op \in {"Add", "Sub", "Mul", "Div"} -> 2
    [] op \in {"FusedMulAdd", "FusedMulSub", "NegFusedMulAdd", "NegFusedMulSub"} -> 3
    [] OTHER -> 1
Ops == {"Add", "Sub", "Mul", "Div", "FusedMulAdd", "FusedMulSub", "NegFusedMulAdd", "NegFusedMulSub", "Abs", "Sqrt", "Upwind"}
Vector(op, args) == [i \in 1..Len(args) |-> Scalar(op, args[i])]
RECURSIVE SumTo(_, _)
SumTo(v, n) == IF n = 0 THEN 0 ELSE v[n] + SumTo(v, n - 1)
Horiz(v) == SumTo(v, Len(v))
\* store of v at offset k of memory m
Store(m, k, v) == [i \in 1..Len(m) |-> IF i > k /\ i <= k + Len(v) THEN v[i - k] ELSE m[i]]
Load(m, k, w) == [i \in 1..w |-> m[k + i]]
=============================================================================
