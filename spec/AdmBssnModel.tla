---------------------------- MODULE AdmBssnModel ----------------------------
(* A slice walks between its descriptions: read as ADM data in one basis,     *)
(* converted to BSSN variables of a grid, its conformal metric drifts by a    *)
(* factor (evolution error), the determinant is enforced, and it is read back.*)
EXTENDS AdmBssn, TLC
CONSTANTS Diag, Off, Ks, Drifts
VARIABLES form, J, s, JI, adm0, adm, b, pc
vars == <<form, J, s, JI, adm0, adm, b, pc>>
\* rotated, stretched orthogonal bases: columns (3,4,0)/5, (-4,3,0)/5, (0,0,1) times scale factors
Rot(a, b2, c) == LET f == Inv(5) IN
   <<<<Mul(Mul(3, f), a), Mul(Mul(P - 4, f), b2), 0>>, <<Mul(Mul(4, f), a), Mul(Mul(3, f), b2), 0>>, <<0, 0, c>>>>
Bases == {<<Id, <<1, 1, 1>>>>, <<Rot(1, 7, 21), <<1, 7, 21>>>>, <<Rot(2, 3, 5), <<2, 3, 5>>>>}
Sym(a, b2, c, d, e, f) == <<<<a, d, e>>, <<d, b2, f>>, <<e, f, c>>>>
Metrics == {g \in {Sym(a, b2, c, d, e, f): a \in Diag, b2 \in Diag, c \in Diag, d \in Off, e \in Off, f \in Off}: Pos(Det(g))}
Curv == {Sym(a, 2, c, d, 1, a): a \in Ks, c \in Ks, d \in Ks}
Init == /\ form \in {"W", "chi"} /\ \E x \in Bases, y \in Bases: J = x[1] /\ s = x[2] /\ JI = y[1]
        /\ \E g \in Metrics, K \in Curv: adm0 = [al |-> 5, be |-> <<1, 2, 3>>, B |-> <<4, 0, 6>>, g |-> g, K |-> K]
        /\ adm = adm0 /\ b = <<>> /\ pc = "adm"
Convert == pc = "adm" /\ pc' = "bssn" /\ b' = ToBSSN(form, J, s, JI, adm) /\ UNCHANGED <<form, J, s, JI, adm0, adm>>
\* drift: the conformal metric is off by a factor; the conformal class is intact
Rescale(h, k) == LET g == Scale(k, Gbar(J, s, h)) G == Ghat(J) IN Mat3(LAMBDA i, j: Mul(Sub(g[i][j], G[i][j]), Inv(Mul(s[i], s[j]))))
Drift == pc = "bssn" /\ \E k \in Drifts: b' = [b EXCEPT !.h = Rescale(@, k)] /\ pc' = "drifted" /\ UNCHANGED <<form, J, s, JI, adm0, adm>>
Enforce == pc = "drifted" /\ pc' = "bssn2"
           /\ b' = [b EXCEPT !.h = LET g == Gbar(J, s, @) IN Rescale(@, Root3(Mul(Det(Ghat(J)), Inv(Det(g)))))]
           /\ UNCHANGED <<form, J, s, JI, adm0, adm>>
Back == pc \in {"bssn", "bssn2"} /\ pc' = "back" /\ adm' = ToADM(form, J, s, JI, b) /\ UNCHANGED <<form, J, s, JI, adm0, b>>
Next == Convert \/ Drift \/ Enforce \/ Back
Spec == Init /\ [][Next]_vars
RoundTrip == pc = "back" => adm = adm0
Consistent == pc \in {"bssn", "bssn2"} => SameSlice([form |-> form, J |-> J, s |-> s, JI |-> JI, adm |-> adm0, b |-> b]) = ""
EnforceIsProjection == [][pc = "drifted" /\ pc' = "bssn2" => Enforced(J, s, b.h, b'.h) = ""]_vars
TraceFree == pc = "bssn" => Contract(MInv(Gbar(J, s, b.h)), Abar(s, b.a)) = 0
=============================================================================
