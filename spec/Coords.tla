------------------------------- MODULE Coords -------------------------------
(* Grid points and Cartesian points.  A grid point (ghost points included)    *)
(* names the same place as the interior or outer point Map sends it to        *)
(* (module BCs); converting to Cartesian coordinates and back must therefore  *)
(* end at Map(g), for every place of its cell, wherever the grid's origin is. *)
(* Values are fixed point, 1e-4.                                              *)
EXTENDS BCs
\* index of the cell a coordinate (in units of the spacing, from the lower face, scaled) lies in
Cell(x, s) == x \div s
\* cells tile the line: every coordinate lies in exactly one, and the centre of cell i in cell i
Tiles(s, R) == \A x \in R : \E i \in -50..50 : /\ Cell(x, s) = i /\ i * s <= x /\ x < (i + 1) * s
Centred(s) == \A i \in -20..20 : Cell(i * s + s \div 2, s) = i
\* truncating toward zero instead, as a plain integer conversion does, is only right from zero on
Trunc(x, s) == IF x >= 0 THEN x \div s ELSE -((-x) \div s)
TruncRight(s, R) == \A x \in R : Trunc(x, s) = Cell(x, s)
Same(a, b) == a - b \in -1..1
Close(a, b) == \A d \in 1..3 : Same(a[d], b[d])
Shift(a, o) == [d \in 1..3 |-> a[d] + o[d]]
\* the map of places is idempotent, and partners are places of the grid or beyond an outer face
Idem(c, N, g) == Map(c, N, Map(c, N, g).p).p = Map(c, N, g).p
=============================================================================
