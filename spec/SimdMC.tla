------------------------------- MODULE SimdMC -------------------------------
(* All lane operands in a small range; laws relating the operations.         *)
EXTENDS Simd, TLC, Json
CONSTANTS N, Emit
VARIABLES op, a
D == -N..N
Init == /\ op \in Ops
        /\ a \in IF Arity(op) = 3 THEN D \X D \X D ELSE IF Arity(op) = 2 THEN D \X D ELSE {<<x>> : x \in D}
        /\ op = "Div" => a[2] # 0 /\ a[1] % Abs(a[2]) = 0
        /\ op = "Sqrt" => \E r \in 0..N : r * r = a[1]
Next == FALSE /\ UNCHANGED <<op, a>>
Spec == Init /\ [][Next]_<<op, a>>
Fused == Arity(op) = 3 =>
  /\ Scalar("FusedMulAdd", a) = -Scalar("NegFusedMulSub", a)
  /\ Scalar("FusedMulSub", a) = -Scalar("NegFusedMulAdd", a)
  /\ Scalar("FusedMulAdd", a) = Scalar("Add", <<Scalar("Mul", a), a[3]>>)
  /\ Scalar("FusedMulSub", a) = Scalar("Sub", <<Scalar("Mul", a), a[3]>>)
DivMul == op = "Div" => Scalar("Mul", <<Scalar("Div", a), a[2]>>) = a[1]
AbsUp == op \in {"Abs", "Upwind"} => Scalar("Abs", a) = a[1] * (2 * Scalar("Upwind", a) - 1)
Mem == op = "Add" => LET m == <<7, a[1], 9, a[2], 5>> IN
  /\ \A k \in 0..3 : Load(Store(m, k, a), k, 2) = a
  /\ Horiz(Load(m, 1, 3)) = a[1] + 9 + a[2]
Out == Emit => PrintT("H|" \o ToJson([op |-> op, a |-> a]))
=============================================================================
