------------------------------ MODULE ChareMC ------------------------------
(* All small decompositions: the index maps are mutual inverses, and the      *)
(* three exchange phases fill every ghost point that mirrors an interior      *)
(* point of another chare, edges and corners included.                        *)
EXTENDS Chare, TLC
CONSTANTS NC, NS, NG, Wide, Emit
VARIABLES C, ph, data
vars == <<C, ph, data>>
Cfgs == {c \in {[N |-> <<s[1] * n[1], s[2] * n[2], s[3] * n[3]>>, nc |-> n, ng |-> g] : s \in NS \X NS \X NS, n \in NC \X NC \X NC, g \in NG} : Admissible(c)}
Start(c) == [k \in Chares(c) |-> [l \in Locals(c) |-> IF LInterior(c, l) THEN 1 + GLin(c, Global(c, k, l)) ELSE 0]]
Init == C \in Cfgs /\ ph = 0 /\ data = Start(C)
        /\ (Emit => PrintT("H|[[" \o ToString(C.N[1]) \o "," \o ToString(C.N[2]) \o "," \o ToString(C.N[3]) \o "],[" \o ToString(C.nc[1]) \o "," \o ToString(C.nc[2]) \o "," \o ToString(C.nc[3]) \o "]," \o ToString(C.ng) \o "]"))
Next == ph < 3 /\ ph' = ph + 1 /\ data' = Phase(C, ph + 1, data, Wide) /\ UNCHANGED C
Spec == Init /\ [][Next]_vars
Bijective == ph = 0 =>
  /\ \A g \in Globals(C) : Owner(C, g) \in Chares(C) /\ Local(C, g) \in Locals(C) /\ Global(C, Owner(C, g), Local(C, g)) = g
  /\ \A c \in Chares(C), l \in Locals(C) : LET g == Global(C, c, l) IN
       /\ g \in Globals(C)
       /\ LInterior(C, l) => GInterior(C, g) /\ Owner(C, g) = c /\ Local(C, g) = l
  /\ \A g \in Globals(C) : GInterior(C, g) => Cardinality({c \in Chares(C) : LInterior(C, [d \in Dims |-> g[d] - c[d] * Size(C, d)])}) = 1
Filled == ph = 3 => \A c \in Chares(C), l \in Locals(C) : LET g == Global(C, c, l) IN data[c][l] = IF GInterior(C, g) THEN 1 + GLin(C, g) ELSE 0
=============================================================================
