------------------------------ MODULE Codegen -------------------------------
(* Meaning of a list of symbolic expressions and of the straight-line code   *)
(* generated for it.  A node is a record with operator o:                    *)
(*   "s" symbol number n; "r" rational p/q; "c" constant pi; "+" and "*" over*)
(*   the sequence a; "^" base a[1] to the rational p/q; "f" function f of    *)
(*   a[1]; "v" (code only) value of an earlier temporary.                    *)
EXTENDS Field
RECURSIVE Eval(_, _), Sum(_, _, _), Prod(_, _, _)
Sum(a, i, env) == IF i > Len(a) THEN 0 ELSE Add(Eval(a[i], env), Sum(a, i + 1, env))
Prod(a, i, env) == IF i > Len(a) THEN 1 ELSE Mul(Eval(a[i], env), Prod(a, i + 1, env))
Eval(t, env) ==
  CASE t.o = "s" -> env[t.n]
    [] t.o = "r" -> Rat(t.p, t.q)
    [] t.o = "c" -> PI
    [] t.o = "+" -> Sum(t.a, 1, env)
    [] t.o = "*" -> Prod(t.a, 1, env)
    [] t.o = "^" -> RatPow(Eval(t.a[1], env), t.p, t.q)
    [] t.o = "f" -> Fun(t.f, Eval(t.a[1], env))

\* A list of assignments: item [t |-> expression, to |-> symbol number bound
\* for later items, or 0 for an output].  Result: outputs in order.
RECURSIVE Run(_, _, _)
Run(items, i, env) ==
  IF i > Len(items) THEN <<>>
  ELSE LET v == Eval(items[i].t, env) IN
       IF items[i].to = 0 THEN <<v>> \o Run(items, i + 1, env)
       ELSE Run(items, i + 1, [n \in DOMAIN env |-> IF n = items[i].to THEN v ELSE env[n]])

\* vector operations
Simd(op, a, b, c) ==
  CASE op = "Add" -> Add(a, b) [] op = "Sub" -> Sub(a, b) [] op = "Mul" -> Mul(a, b)
    [] op = "Div" -> Mul(a, Inv(b))
    [] op = "FMA" -> Add(Mul(a, b), c) [] op = "FMS" -> Sub(Mul(a, b), c)
    [] op = "NFMA" -> Sub(c, Mul(a, b)) [] op = "NFMS" -> Sub(Sub(0, Mul(a, b)), c)
=============================================================================
