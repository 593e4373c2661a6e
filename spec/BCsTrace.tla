------------------------------ MODULE BCsTrace ------------------------------
(* Arrays after the generated boundary-condition functions ran.  One line =   *)
(*  coord, c: class, n, ng, mode, ty: parity type, pre, v: the array before   *)
(*  and after (modulo P, x0 fastest), err,                                    *)
(*  k: for radiation, the grid function's polynomial and parameters.          *)
EXTENDS BCs, Field, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
T(t, d) == t.n[d] + 2 * t.ng
Ix(t, g) == 1 + g[1] + t.ng + T(t, 1) * (g[2] + t.ng + T(t, 2) * (g[3] + t.ng))
Pts(t) == {<<a, b, d>> : a \in (-t.ng)..(t.n[1] + t.ng - 1), b \in (-t.ng)..(t.n[2] + t.ng - 1), d \in (-t.ng)..(t.n[3] + t.ng - 1)}
V(t, g) == t.v[Ix(t, g)]
Inner(t, g) == LET m == Map(t.c, t.n, g) IN V(t, g) = Mul(M(Sign(t.ty, m.s)), V(t, m.p))
Extrap(t, g) == \E f \in Faces(t.c, t.n, g) : V(t, g) = M(3 * V(t, Step(g, f, 1)) - 3 * V(t, Step(g, f, 2)) + V(t, Step(g, f, 3)))
\* radiation condition on polynomial data
X(t, g, d) == Add(t.k.x0[d], Mul(M(g[d]), t.k.dx[d]))
F(t, g) == LET x == X(t, g, 1) y == X(t, g, 2) z == X(t, g, 3) k == t.k IN
  Add(k.a0, Add(Add(Mul(k.a[1], x), Add(Mul(k.a[2], y), Mul(k.a[3], z))), Add(Add(Mul(k.b[1], Mul(x, x)), Add(Mul(k.b[2], Mul(y, y)), Mul(k.b[3], Mul(z, z)))), Mul(k.e, Mul(x, z)))))
DF(t, g, d) == Add(Add(t.k.a[d], Mul(2, Mul(t.k.b[d], X(t, g, d)))), IF d = 1 THEN Mul(t.k.e, X(t, g, 3)) ELSE IF d = 3 THEN Mul(t.k.e, X(t, g, 1)) ELSE 0)
R2(t, g) == LET q(d) == Mul(X(t, g, d), X(t, g, d)) IN CASE t.c = "sph" -> q(1) [] t.c = "cyl" -> Add(q(1), q(3)) [] OTHER -> Add(q(1), Add(q(2), q(3)))
R(t, g) == IF t.c = "sph" THEN X(t, g, 1) ELSE Root2(R2(t, g))
DR(t, g) == IF t.c = "sph" THEN DF(t, g, 1)
  ELSE LET q(d) == Mul(X(t, g, d), DF(t, g, d)) IN Mul(Inv(R(t, g)), IF t.c = "cyl" THEN Add(q(1), q(3)) ELSE Add(q(1), Add(q(2), q(3))))
Wave(t, g) == Sub(0, Mul(t.k.speed, Add(DR(t, g), Mul(Sub(F(t, g), t.k.finf), Inv(R(t, g))))))
Defined(t, g) == R2(t, g) # 0 /\ Pos(R2(t, g))
Radiate(t, g) == \E f \in Faces(t.c, t.n, g) : LET i == Step(g, f, 1) q == Mul(R(t, i), Inv(R(t, g))) IN
  \/ ~Defined(t, g) \/ ~Defined(t, i)
  \/ V(t, g) = Add(Wave(t, g), Mul(Mul(q, Mul(q, q)), Sub(V(t, i), Wave(t, i))))
BadAt(t, g) ==
  CASE Interior(t.n, g) -> IF V(t, g) = t.pre[Ix(t, g)] THEN "" ELSE "interior point changed"
    [] Map(t.c, t.n, g).p # g -> IF Inner(t, g) THEN "" ELSE "inner boundary point is not its interior partner times the parity"
    [] t.mode = "inner" -> IF V(t, g) = t.pre[Ix(t, g)] THEN "" ELSE "outer point changed by the inner boundary condition"
    [] t.mode = "rad" -> IF Radiate(t, g) THEN "" ELSE "outer point does not satisfy the radiation condition"
    [] OTHER -> IF Extrap(t, g) THEN "" ELSE "outer point is not extrapolated from filled points"
Name(t) == t.coord \o " " \o ToString(t.n) \o " with " \o ToString(t.ng) \o " ghost zones, " \o t.mode \o ", parity type " \o ToString(t.ty) \o ": "
Bad(t) ==
  IF t.err # "" THEN Name(t) \o t.err
  ELSE LET b == {g \in Pts(t) : BadAt(t, g) # ""} IN
       IF b = {} THEN "" ELSE LET g == CHOOSE g \in b : \A h \in b : Ix(t, g) <= Ix(t, h) IN Name(t) \o BadAt(t, g) \o " at " \o ToString(g)
Init == l = 0 /\ bad = 0
Next == /\ l < Len(Trace) /\ l' = l + 1
        /\ LET t == Trace[l + 1] IN
           LET w == Bad(t) IN IF w = "" THEN bad' = bad ELSE PrintT("BAD|" \o ToString(l + 1) \o "|" \o w) /\ bad' = bad + 1
Conforms == TRUE
TraceAccepted == TLCGet("stats").diameter >= Len(Trace)
=============================================================================
