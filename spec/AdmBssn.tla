------------------------------ MODULE AdmBssn -------------------------------
(* The two descriptions of one space-time slice, over the field of Field.tla.*)
(*   ADM : lapse, shift, dt shift, metric, extrinsic curvature (and matter)  *)
(*         in the Cartesian or spherical basis of the initial data;          *)
(*   BSSN: conformal factor, trace, rescaled conformal metric deviation h,   *)
(*         rescaled trace-free part a, shift vet, lapse, in the basis of the *)
(*         grid, whose Cartesian map has Jacobian J and scale factors s.     *)
(* A conversion is right when both describe the same slice; "positive" is    *)
(* "quadratic residue", so square roots have a sign, cube roots are unique.  *)
EXTENDS Field, FiniteSets
N3 == 1..3
Mat3(F(_, _)) == <<<<F(1,1), F(1,2), F(1,3)>>, <<F(2,1), F(2,2), F(2,3)>>, <<F(3,1), F(3,2), F(3,3)>>>>
Vec3(F(_)) == <<F(1), F(2), F(3)>>
Sum3(F(_)) == (F(1) + F(2) + F(3)) % P
MM(a, b) == Mat3(LAMBDA i, j: (Mul(a[i][1], b[1][j]) + Mul(a[i][2], b[2][j]) + Mul(a[i][3], b[3][j])) % P)
Tr(a) == Mat3(LAMBDA i, j: a[j][i])
MV(a, v) == Vec3(LAMBDA i: (Mul(a[i][1], v[1]) + Mul(a[i][2], v[2]) + Mul(a[i][3], v[3])) % P)
C(i) == (i % 3) + 1
Min(a, i, j) == Sub(Mul(a[C(i)][C(j)], a[C(C(i))][C(C(j))]), Mul(a[C(i)][C(C(j))], a[C(C(i))][C(j)]))
Det(a) == Sum3(LAMBDA j: Mul(a[1][j], Min(a, 1, j)))
MInv(a) == LET d == Inv(Det(a)) IN Mat3(LAMBDA i, j: Mul(d, Min(a, j, i)))
Scale(k, a) == Mat3(LAMBDA i, j: Mul(k, a[i][j]))
Plus(a, b) == Mat3(LAMBDA i, j: Add(a[i][j], b[i][j]))
Pull(J, g) == MM(Tr(J), MM(g, J))                     \* covariant tensor, old basis -> new
Id == Mat3(LAMBDA i, j: IF i = j THEN 1 ELSE 0)
Third == Inv(3)
Half == Inv(2)
(* ---- the geometry of the grid ------------------------------------------- *)
Ghat(J) == MM(Tr(J), J)
GoodScale(J, s) == \A i, j \in N3: Ghat(J)[i][j] = IF i = j THEN Mul(s[i], s[i]) ELSE 0
Gbar(J, s, h) == LET G == Ghat(J) IN Mat3(LAMBDA i, j: Add(G[i][j], Mul(h[i][j], Mul(s[i], s[j]))))
Abar(s, a) == Mat3(LAMBDA i, j: Mul(a[i][j], Mul(s[i], s[j])))
Conf(form, cf) == IF form = "W" THEN Mul(cf, cf) ELSE cf           \* e^{-4 phi}
(* ---- ADM -> BSSN and back, as functions ---------------------------------- *)
Contract(gi, K) == Sum3(LAMBDA i: Sum3(LAMBDA j: Mul(gi[i][j], K[i][j])))
ToBSSN(form, J, s, JI, adm) ==
  LET L == MM(MInv(JI), J)
      g == Pull(L, adm.g)  K == Pull(L, adm.K)
      e == Root3(Mul(Det(Ghat(J)), Inv(Det(g))))                    \* e^{-4 phi}
      k == Contract(MInv(g), K)
      G == Ghat(J)
      Li == MInv(L)
  IN [al |-> adm.al, cf |-> IF form = "W" THEN Root2(e) ELSE e, trK |-> k,
      vet |-> LET v == MV(Li, adm.be) IN Vec3(LAMBDA i: Mul(v[i], s[i])),
      bet |-> LET v == MV(Li, adm.B) IN Vec3(LAMBDA i: Mul(v[i], s[i])),
      h |-> Mat3(LAMBDA i, j: Mul(Sub(Mul(e, g[i][j]), G[i][j]), Inv(Mul(s[i], s[j])))),
      a |-> Mat3(LAMBDA i, j: Mul(Mul(e, Sub(K[i][j], Mul(Third, Mul(g[i][j], k)))), Inv(Mul(s[i], s[j]))))]
ToADM(form, J, s, JI, b) ==
  LET L == MM(MInv(JI), J)  Li == MInv(L)
      e == Inv(Conf(form, b.cf))
      g == Scale(e, Gbar(J, s, b.h))
      K == Plus(Scale(e, Abar(s, b.a)), Scale(Mul(Third, b.trK), g))
  IN [al |-> b.al, be |-> MV(L, Vec3(LAMBDA i: Mul(b.vet[i], Inv(s[i])))), B |-> MV(L, Vec3(LAMBDA i: Mul(b.bet[i], Inv(s[i])))),
      g |-> Pull(Li, g), K |-> Pull(Li, K)]
(* ---- conditions a converted point must meet ------------------------------ *)
SameSlice(q) ==      \* "" or the first condition that fails
  LET L == MM(MInv(q.JI), q.J)
      g == Pull(L, q.adm.g)  K == Pull(L, q.adm.K)
      f == Conf(q.form, q.b.cf)
      gb == Gbar(q.J, q.s, q.b.h)
      U(v) == MV(q.J, Vec3(LAMBDA i: Mul(v[i], Inv(q.s[i]))))
  IN IF ~GoodScale(q.J, q.s) THEN "scale factors are not those of the coordinate map"
     ELSE IF q.b.al # q.adm.al THEN "lapse differs"
     ELSE IF U(q.b.vet) # MV(q.JI, q.adm.be) THEN "shift differs"
     ELSE IF U(q.b.bet) # MV(q.JI, q.adm.B) THEN "time derivative of the shift differs"
     ELSE IF Scale(f, g) # gb THEN "conformal metric is not the metric over its conformal factor"
     ELSE IF Det(gb) # Det(Ghat(q.J)) THEN "determinant of the conformal metric is not that of the reference metric"
     ELSE IF q.form = "W" /\ ~Pos(q.b.cf) THEN "conformal factor is not positive"
     ELSE IF q.b.trK # Contract(MInv(g), K) THEN "trace of the extrinsic curvature differs"
     ELSE IF Abar(q.s, q.b.a) # Scale(f, Plus(K, Scale(Mul(P - Third, q.b.trK), g))) THEN "trace-free extrinsic curvature differs"
     ELSE ""
SameADM(form, J, s, b, adm) ==     \* BSSN -> ADM in the basis of the grid
  LET m == ToADM(form, J, s, J, b)
      x == MV(MInv(J), m.be)
  IN IF adm.al # b.al THEN "lapse differs"
     ELSE IF adm.be # m.be THEN "shift differs"
     ELSE IF adm.B # m.B THEN "time derivative of the shift differs"
     ELSE IF adm.g # m.g THEN "metric differs" ELSE IF adm.K # m.K THEN "extrinsic curvature differs" ELSE ""
Enforced(J, s, h0, h1) ==
  LET a == Gbar(J, s, h0)  b == Gbar(J, s, h1) IN
  IF Det(b) # Det(Ghat(J)) THEN "determinant is not that of the reference metric"
  ELSE IF \E i, j, k, l \in N3: Mul(a[i][j], b[k][l]) # Mul(b[i][j], a[k][l]) THEN "the metric is not merely rescaled"
  ELSE ""
(* matter: 4x4 tensors; index 1 is time                                       *)
J4(J) == [m \in 1..4 |-> [n \in 1..4 |-> IF m = 1 \/ n = 1 THEN (IF m = n THEN 1 ELSE 0) ELSE J[m - 1][n - 1]]]
Sum4(F(_)) == (F(1) + F(2) + F(3) + F(4)) % P
M4(a, b) == [m \in 1..4 |-> [n \in 1..4 |-> Sum4(LAMBDA k: Mul(a[m][k], b[k][n]))]]
T4r(a) == [m \in 1..4 |-> [n \in 1..4 |-> a[n][m]]]
Push4(J, T) == M4(J4(J), M4(T, T4r(J4(J))))
SameMatter(q) == Push4(q.J, q.bT) = Push4(q.JI, q.admT)
G4(al, be, g) == LET bl == MV(g, be) IN
  [m \in 1..4 |-> [n \in 1..4 |-> IF m = 1 /\ n = 1 THEN Sub(Sum3(LAMBDA i: Mul(bl[i], be[i])), Mul(al, al))
                                  ELSE IF m = 1 THEN bl[n - 1] ELSE IF n = 1 THEN bl[m - 1] ELSE g[m - 1][n - 1]]]
Lowered(al, be, g, T) == M4(G4(al, be, g), M4(T, G4(al, be, g)))
(* ---- the conformal connection: lambda^i s_i^-1 = gb^jk (Gb^i_jk - Gh^i_jk) - *)
(* H[a][i][j]: second derivatives of the Cartesian map; dh[k]: derivatives of h *)
Central(fd, st, inv) == IF fd = 2 THEN Scale(Mul(Half, inv), Plus(st[2], Scale(P - 1, st[1])))
                        ELSE Scale(Mul(Inv(12), inv), Plus(Scale(8, Plus(st[3], Scale(P - 1, st[2]))), Scale(P - 1, Plus(st[4], Scale(P - 1, st[1])))))
LambdaU(J, H, s, h, dh) ==
  LET dG == [k \in N3 |-> Mat3(LAMBDA i, j: Sum3(LAMBDA a: Add(Mul(H[a][i][k], J[a][j]), Mul(J[a][i], H[a][j][k]))))]
      ds == [k \in N3 |-> Vec3(LAMBDA i: Mul(dG[k][i][i], Inv(Mul(2, s[i]))))]
      dg == [k \in N3 |-> Mat3(LAMBDA i, j: Add(dG[k][i][j], Add(Mul(dh[k][i][j], Mul(s[i], s[j])),
                                Mul(h[i][j], Add(Mul(ds[k][i], s[j]), Mul(s[i], ds[k][j]))))))]
      gU == MInv(Gbar(J, s, h))
      Ji == MInv(J)
      low(l, j, k) == Mul(Half, Sub(Add(dg[k][l][j], dg[j][l][k]), dg[l][j][k]))
      Low == [l \in N3 |-> Mat3(LAMBDA j, k: low(l, j, k))]
      cL == Vec3(LAMBDA l: Contract(gU, Low[l]))                                 \* gb^jk Gb_ljk
      cH == Vec3(LAMBDA a: Contract(gU, H[a]))                                    \* gb^jk H^a_jk
      up == MV(gU, cL)  hat == MV(Ji, cH)
  IN Vec3(LAMBDA i: Mul(Sub(up[i], hat[i]), s[i]))
=============================================================================
