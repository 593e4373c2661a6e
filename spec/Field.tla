------------------------------- MODULE Field --------------------------------
(* Exact arithmetic for the meaning of expressions: the prime field F_P with *)
(* P = 11 (mod 12) and P*P < 2^31.  "Positive" means quadratic residue; then *)
(* -1 is not positive, products of positives are positive, every positive    *)
(* has one positive square root and every element one cube root.             *)
EXTENDS Integers, Sequences
P == 46199
M(a) == a % P
Add(a, b) == (a + b) % P
Sub(a, b) == (a - b) % P
Mul(a, b) == (a * b) % P
RECURSIVE Pw(_, _)
Pw(b, e) == IF e = 0 THEN 1 ELSE LET h == Pw((b * b) % P, e \div 2) IN IF e % 2 = 1 THEN (h * b) % P ELSE h
Inv(a) == Pw(M(a), P - 2)
Pos(a) == Pw(M(a), (P - 1) \div 2) = 1
Root2(a) == Pw(a, (P + 1) \div 4)
Root3(a) == Pw(a, (2 * P - 1) \div 3)
RECURSIVE Root(_, _)
Root(a, q) == IF q % 2 = 0 THEN Root(Root2(a), q \div 2) ELSE IF q % 3 = 0 THEN Root(Root3(a), q \div 3) ELSE a
RatPow(a, p, q) == LET r == Root(a, q) IN IF p >= 0 THEN Pw(r, p) ELSE Pw(Inv(r), -p)
Rat(p, q) == Mul(M(p), Inv(q))
PI == 27889
\* opaque odd / even stand-ins for transcendental functions
Fun(n, a) ==
  CASE n = "sin" -> Mul(a, Add(Mul(a, a), 7))
    [] n = "cos" -> Add(1, Mul(11, Mul(a, a)))
    [] n = "tan" -> Mul(a, Add(Mul(a, a), 19))
    [] n = "sinh" -> Mul(a, Add(Mul(a, a), 23))
    [] n = "cosh" -> Add(1, Mul(29, Mul(a, a)))
    [] n = "tanh" -> Mul(a, Add(Mul(a, a), 31))
    [] n = "atan" -> Mul(a, Add(Mul(a, a), 37))
    [] n = "exp" -> Add(1, Mul(a, Add(a, 5)))
    [] n = "log" -> Mul(Sub(a, 1), Add(a, 3))
    [] n \in {"Abs", "nrpyAbs"} -> IF a = 0 \/ Pos(a) THEN a ELSE Sub(0, a)
    [] n = "sign" -> IF a = 0 THEN 0 ELSE IF Pos(a) THEN 1 ELSE P - 1
=============================================================================
