------------------------------- MODULE Stencil ------------------------------
(* Finite-difference operators as stencils over F_P.  Weights are those of    *)
(* the interpolating polynomial through the operator's nodes, differentiated  *)
(* at 0; Kreiss-Oliger dissipation is the (n+2)nd difference scaled so that   *)
(* it removes the shortest wave exactly.  d1, d2 are directions 0..2 (d2 is   *)
(* only used by second derivatives), n is the (even) order.                   *)
EXTENDS Field, FiniteSets
RECURSIVE SumS(_, _), ProdS(_, _)
SumS(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN Add(f[x], SumS(S \ {x}, f))
ProdS(S, f) == IF S = {} THEN 1 ELSE LET x == CHOOSE x \in S : TRUE IN Mul(M(f[x]), ProdS(S \ {x}, f))
\* multiply a polynomial (sequence of coefficients, constant first) by (x - a), keeping degrees 0..2
Trunc(c, a) == [i \in 1..3 |-> Sub(IF i = 1 THEN 0 ELSE c[i - 1], Mul(M(a), c[i]))]
RECURSIVE Poly(_)
Poly(S) == IF S = {} THEN <<1, 0, 0>> ELSE LET x == CHOOSE x \in S : TRUE IN Trunc(Poly(S \ {x}), x)
\* m-th derivative (m = 1, 2) at 0 of the interpolant through nodes X: weight of node j
Weight(X, m, j) == LET Y == X \ {j} IN Mul(IF m = 2 THEN Mul(2, Poly(Y)[3]) ELSE Poly(Y)[m + 1], Inv(ProdS(Y, [y \in Y |-> j - y])))
Nodes(op, n) ==
  LET h == n \div 2 IN
  CASE op = "dupD" -> (1 - h)..(h + 1)
    [] op = "ddnD" -> (-h - 1)..(h - 1)
    [] op = "dfullupD" -> 0..n
    [] op = "dfulldnD" -> (-n)..0
    [] op = "dKOD" -> (-h - 1)..(h + 1)
    [] OTHER -> (-h)..h
RECURSIVE Binom(_, _)
Binom(a, b) == IF b = 0 \/ b = a THEN 1 ELSE Binom(a - 1, b - 1) + Binom(a - 1, b)
One(op, n, m) == [j \in Nodes(op, n) |->
   IF op = "dKOD" THEN Mul(M(IF j % 2 = 0 THEN -Binom(n + 2, j + n \div 2 + 1) ELSE Binom(n + 2, j + n \div 2 + 1)), Inv(Pw(2, n + 2)))
   ELSE Weight(Nodes(op, n), m, j)]
At(d, j) == [i \in 1..3 |-> IF i = d + 1 THEN j ELSE 0]
At2(d, j, e, k) == [i \in 1..3 |-> IF i = d + 1 THEN j ELSE IF i = e + 1 THEN k ELSE 0]
Clean(f) == [o \in {o \in DOMAIN f : f[o] # 0} |-> f[o]]
\* the stencil of an operator: offset -> weight, without the powers of 1/dx
StencilOf(op, d1, d2, n) ==
  IF op = "dDD" /\ d1 # d2
  THEN LET w == One("dD", n, 1) IN Clean([o \in {At2(d1, j, d2, k) : j \in DOMAIN w, k \in DOMAIN w} |-> Mul(w[o[d1 + 1]], w[o[d2 + 1]])])
  ELSE LET w == One(op, n, IF op = "dDD" THEN 2 ELSE 1) IN Clean([o \in {At(d1, j) : j \in DOMAIN w} |-> w[o[d1 + 1]]])
Scale(op, d1, d2, iv) == IF op = "dDD" THEN Mul(iv[d1 + 1], iv[d2 + 1]) ELSE iv[d1 + 1]
Scaled(s, k) == [o \in DOMAIN s |-> Mul(s[o], k)]
\* upwinding: the control component decides which one-sided stencil is used
Resolve(op, ctl) == IF op = "dupD" /\ ctl # "none" THEN IF ctl = "pos" THEN "dupD" ELSE "ddnD" ELSE op
Radius(op, n) == IF op \in {"dupD", "ddnD", "dKOD"} THEN n \div 2 + 1 ELSE n \div 2
=============================================================================
