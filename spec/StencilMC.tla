------------------------------ MODULE StencilMC -----------------------------
(* Every operator and order: the stencils of Stencil.tla have the promised    *)
(* accuracy.  Moment(k) is the value of the stencil on x^k at 0.              *)
EXTENDS Stencil, TLC, Json
CONSTANTS Orders, Emit
VARIABLES op, n, d1, d2, s
vars == <<op, n, d1, d2, s>>
Ops == {"dD", "dDD", "dupD", "ddnD", "dKOD", "dfullupD", "dfulldnD"}
Init == /\ op \in Ops /\ n \in Orders /\ d1 \in 0..2 /\ d2 \in (IF op = "dDD" THEN d1..2 ELSE {d1})
        /\ s = StencilOf(op, d1, d2, n)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Mom(k1, k2) == SumS(DOMAIN s, [o \in DOMAIN s |-> Mul(s[o], Mul(Pw(M(o[d1 + 1]), k1), IF d2 # d1 THEN Pw(M(o[d2 + 1]), k2) ELSE 1))])
First == op \in {"dD", "dupD", "ddnD", "dfullupD", "dfulldnD"}
\* exact on all polynomials up to the promised degree
Exact == CASE First -> \A k \in 0..n : Mom(k, 0) = (IF k = 1 THEN 1 ELSE 0)
           [] op = "dDD" /\ d1 = d2 -> \A k \in 0..(n + 1) : Mom(k, 0) = (IF k = 2 THEN 2 ELSE 0)
           [] op = "dDD" /\ d1 # d2 -> \A k \in 0..n, l \in 0..n : Mom(k, l) = (IF k = 1 /\ l = 1 THEN 1 ELSE 0)
           [] OTHER -> \A k \in 0..(n + 1) : Mom(k, 0) = 0
NotBetter == op = "dD" => Mom(n + 1, 0) # 0
Alt == SumS(DOMAIN s, [o \in DOMAIN s |-> IF o[d1 + 1] % 2 = 0 THEN s[o] ELSE Sub(0, s[o])])
Dissipates == op = "dKOD" => Alt = P - 1
Neg(o) == [i \in 1..3 |-> -o[i]]
Mirror == /\ (op = "dD" => \A o \in DOMAIN s : s[Neg(o)] = Sub(0, s[o]))
          /\ (op \in {"dDD", "dKOD"} => \A o \in DOMAIN s : s[Neg(o)] = s[o])
          /\ (op = "dupD" => LET t == StencilOf("ddnD", d1, d2, n) IN \A o \in DOMAIN s : t[Neg(o)] = Sub(0, s[o]))
Inside == \A o \in DOMAIN s : \A i \in 1..3 : o[i] <= (IF op \in {"dfullupD"} THEN n ELSE IF op = "dfulldnD" THEN 0 ELSE Radius(op, n)) /\ (o[i] # 0 => i \in {d1 + 1, d2 + 1})
Out == Emit => PrintT("H|" \o ToJson([op |-> op, n |-> n, d1 |-> d1, d2 |-> d2]))
=============================================================================
