------------------------------- MODULE Tensor -------------------------------
(* Indexed expressions: components are index tuples over 0..dim-1; a declared *)
(* symmetry is a sequence of [sign, slots] clauses: any two of the slots may  *)
(* be exchanged at the price of the sign.                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Tuples(rank, dim) == [1..rank -> 0..(dim - 1)]
Swap(t, a, b) == [t EXCEPT ![a] = t[b], ![b] = t[a]]
\* adjacent exchanges inside each clause generate its symmetric group
Moves(sy) == UNION {{<<sy[c].slots[i], sy[c].slots[i + 1], sy[c].sign>> : i \in 1..(Len(sy[c].slots) - 1)} : c \in 1..Len(sy)}
StepSet(mv, S) == S \cup {<<Swap(x[1], m[1], m[2]), x[2] * m[3]>> : x \in S, m \in mv}
RECURSIVE Close(_, _)
Close(mv, S) == LET N == StepSet(mv, S) IN IF N = S THEN S ELSE Close(mv, N)
Orbit(sy, t) == Close(Moves(sy), {<<t, 1>>})
RECURSIVE Lex(_, _, _)
Lex(a, b, i) == IF i > Len(a) THEN FALSE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE Lex(a, b, i + 1)
\* the value of component t: 0, or sign * representative symbol
Value(sy, t) ==
  LET O == Orbit(sy, t) IN
  IF <<t, -1>> \in O THEN [sign |-> 0, rep |-> t]
  ELSE LET m == CHOOSE x \in O : \A y \in O : ~Lex(y[1], x[1], 1)
       IN [sign |-> m[2], rep |-> m[1]]
Independent(sy, rank, dim) == {t \in Tuples(rank, dim) : LET v == Value(sy, t) IN v.sign = 1 /\ v.rep = t}
RECURSIVE Digits(_, _)
Digits(t, i) == IF i > Len(t) THEN "" ELSE ToString(t[i]) \o Digits(t, i + 1)
Name(base, t) == base \o Digits(t, 1)
\* derivative indices are the last nder ones; a derivative along an axis of
\* symmetry vanishes
Killed(t, nder, axes) == \E i \in (Len(t) - nder + 1)..Len(t) : t[i] \in axes
Shown(base, sy, t, nder, axes) ==
  LET v == Value(sy, t) IN
  IF v.sign = 0 \/ (nder > 0 /\ Killed(v.rep, nder, axes)) THEN "0"
  ELSE (IF v.sign = -1 THEN "-" ELSE "") \o Name(base, v.rep)
\* well-formed symmetry request for a rank
WellFormed(rank, sy) == \A c \in 1..Len(sy) :
   /\ Len(sy[c].slots) \in 2..rank
   /\ \A i \in 1..Len(sy[c].slots) : sy[c].slots[i] \in 1..rank
   /\ \A i \in 1..(Len(sy[c].slots) - 1) : sy[c].slots[i] < sy[c].slots[i + 1]
-----------------------------------------------------------------------------
\* sign of a permutation written as a tuple over 0..n-1 (0 if not a permutation)
Inv(t) == Cardinality({p \in (1..Len(t)) \X (1..Len(t)) : p[1] < p[2] /\ t[p[1]] > t[p[2]]})
Levi(t) == IF \E i, j \in 1..Len(t) : i < j /\ t[i] = t[j] THEN 0 ELSE IF Inv(t) % 2 = 0 THEN 1 ELSE -1
-----------------------------------------------------------------------------
\* exact linear algebra over the field with P elements (P * P < 2^31)
P == 46337
M(x) == x % P
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE M(SumTo(f, n - 1) + f[n])
RECURSIVE ProdTo(_, _)
ProdTo(f, n) == IF n = 0 THEN 1 ELSE M(ProdTo(f, n - 1) * f[n])
Dot(A, B, i, j, n) == SumTo([k \in 1..n |-> M(A[i][k] * B[k][j])], n)
IsInverse(A, B, n) == \A i, j \in 1..n : Dot(A, B, i, j, n) = (IF i = j THEN 1 ELSE 0)
Perms(n) == {f \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => f[i] # f[j]}
RECURSIVE SumSet(_)
SumSet(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN M(x[2] + SumSet(S \ {x}))
Det(A, n) == SumSet({<<f, M(Levi(f) * ProdTo([i \in 1..n |-> A[i][f[i]]], n))>> : f \in Perms(n)})
=============================================================================
