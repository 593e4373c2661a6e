------------------------------- MODULE Chare -------------------------------
(* A grid of N[d] interior points per direction, with ng ghost points on each *)
(* side, split over nc[1] x nc[2] x nc[3] chares.  A configuration is         *)
(* [N, nc, ng].  Points are tuples of indices from 0, ghosts included.        *)
EXTENDS Integers, Sequences, FiniteSets
Dims == 1..3
Size(C, d) == C.N[d] \div C.nc[d]                 \* interior points of one chare
Ext(C, d) == Size(C, d) + 2 * C.ng                 \* with its ghosts
GExt(C, d) == C.N[d] + 2 * C.ng
Admissible(C) == \A d \in Dims : C.N[d] % C.nc[d] = 0 /\ (C.nc[d] > 1 => Size(C, d) >= C.ng)
Chares(C) == {<<i, j, k>> : i \in 0..(C.nc[1] - 1), j \in 0..(C.nc[2] - 1), k \in 0..(C.nc[3] - 1)}
Locals(C) == {<<i, j, k>> : i \in 0..(Ext(C, 1) - 1), j \in 0..(Ext(C, 2) - 1), k \in 0..(Ext(C, 3) - 1)}
Globals(C) == {<<i, j, k>> : i \in 0..(GExt(C, 1) - 1), j \in 0..(GExt(C, 2) - 1), k \in 0..(GExt(C, 3) - 1)}
GInterior(C, g) == \A d \in Dims : g[d] >= C.ng /\ g[d] < C.N[d] + C.ng
LInterior(C, l) == \A d \in Dims : l[d] >= C.ng /\ l[d] < Size(C, d) + C.ng
Global(C, c, l) == [d \in Dims |-> l[d] + c[d] * Size(C, d)]
\* the chare that owns a point: its interior, and the outer ghosts next to it
OwnerD(C, d, x) == IF x < C.ng THEN 0 ELSE IF x >= C.N[d] + C.ng THEN C.nc[d] - 1 ELSE (x - C.ng) \div Size(C, d)
Owner(C, g) == [d \in Dims |-> OwnerD(C, d, g[d])]
Local(C, g) == [d \in Dims |-> g[d] - OwnerD(C, d, g[d]) * Size(C, d)]
\* linear numbers, first index fastest
Lin(e1, e2, p) == p[1] + e1 * (p[2] + e2 * p[3])
UnLin(e1, e2, i) == <<i % e1, (i \div e1) % e2, i \div (e1 * e2)>>
GLin(C, g) == Lin(GExt(C, 1), GExt(C, 2), g)
LLin(C, l) == Lin(Ext(C, 1), Ext(C, 2), l)
CLin(C, c) == Lin(C.nc[1], C.nc[2], c)
GUn(C, i) == UnLin(GExt(C, 1), GExt(C, 2), i)
LUn(C, i) == UnLin(Ext(C, 1), Ext(C, 2), i)
CUn(C, i) == UnLin(C.nc[1], C.nc[2], i)
\* one phase of the ghost exchange: in direction d every chare takes the ng
\* planes next to its interior from its neighbours, over the whole extent of
\* the other directions (wide) or only their interiors
Phase(C, d, data, wide) ==
  [c \in Chares(C) |-> [l \in Locals(C) |->
     LET lo == l[d] < C.ng /\ c[d] > 0
         hi == l[d] >= Size(C, d) + C.ng /\ c[d] < C.nc[d] - 1
         ok == wide \/ \A q \in Dims \ {d} : l[q] >= C.ng /\ l[q] < Size(C, q) + C.ng
     IN IF lo /\ ok THEN data[[c EXCEPT ![d] = @ - 1]][[l EXCEPT ![d] = @ + Size(C, d)]]
        ELSE IF hi /\ ok THEN data[[c EXCEPT ![d] = @ + 1]][[l EXCEPT ![d] = @ - Size(C, d)]]
        ELSE data[c][l]]]
=============================================================================
