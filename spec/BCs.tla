-------------------------------- MODULE BCs ---------------------------------
(* Boundary points of curvilinear grids.  Points are triples of indices with  *)
(* the interior at 0..N[d]-1 and NG ghost layers on every side.  Classes:     *)
(*  sph    origin at the lower x0 face, poles at both x1 faces, x2 periodic   *)
(*  holey  no origin (outer x0 faces), poles, x2 periodic                     *)
(*  ring   outer x0 and x1 faces, x2 periodic                                 *)
(*  cyl    axis at the lower x0 face, x1 periodic, outer x2 faces             *)
(*  symtp  focal segment at the lower x0 face, poles, x2 periodic             *)
(*  cart   outer faces only                                                   *)
EXTENDS Integers, Sequences, FiniteSets
Classes == {"sph", "holey", "ring", "cyl", "symtp", "cart"}
Even(c) == IF c = "cyl" THEN {2} ELSE IF c \in {"sph", "holey", "symtp"} THEN {3} ELSE {}   \* directions that need an even size
OuterLo(c) == CASE c \in {"sph", "symtp"} -> {} [] c = "holey" -> {1} [] c = "ring" -> {1, 2} [] c = "cyl" -> {3} [] OTHER -> 1..3
OuterHi(c) == CASE c \in {"sph", "symtp", "holey"} -> {1} [] c = "ring" -> {1, 2} [] c = "cyl" -> {1, 3} [] OTHER -> 1..3
Mods(a, b) == <<a[1] * b[1], a[2] * b[2], a[3] * b[3]>>
\* x0 < 0
FlipR(c, N, q) ==
  IF q.p[1] >= 0 \/ 1 \in OuterLo(c) THEN q
  ELSE CASE c = "sph" -> [p |-> <<-1 - q.p[1], N[2] - 1 - q.p[2], q.p[3] + N[3] \div 2>>, s |-> Mods(q.s, <<-1, 1, -1>>)]
         [] c = "symtp" -> [p |-> <<-1 - q.p[1], q.p[2], q.p[3] + N[3] \div 2>>, s |-> Mods(q.s, <<-1, 1, -1>>)]
         [] OTHER -> [p |-> <<-1 - q.p[1], q.p[2] + N[2] \div 2, q.p[3]>>, s |-> Mods(q.s, <<-1, -1, 1>>)]
\* beyond a pole
FlipT(c, N, q) ==
  IF c \notin {"sph", "symtp", "holey"} \/ q.p[2] \in 0..(N[2] - 1) THEN q
  ELSE [p |-> <<q.p[1], IF q.p[2] < 0 THEN -1 - q.p[2] ELSE 2 * N[2] - 1 - q.p[2], q.p[3] + N[3] \div 2>>, s |-> Mods(q.s, <<1, -1, -1>>)]
Wrap(c, N, q) ==
  CASE c = "cyl" -> [q EXCEPT !.p[2] = @ % N[2]]
    [] c = "cart" -> q
    [] OTHER -> [q EXCEPT !.p[3] = @ % N[3]]
\* where a point's data comes from, and the sign per vector component
Map(c, N, g) == Wrap(c, N, FlipT(c, N, FlipR(c, N, [p |-> g, s |-> <<1, 1, 1>>])))
\* parity types: 0 scalar, 1..3 vector, 4..9 symmetric rank 2 (00 01 02 11 12 22)
Sign(ty, s) == CASE ty = 0 -> 1 [] ty \in 1..3 -> s[ty] [] ty = 4 -> s[1] * s[1] [] ty = 5 -> s[1] * s[2] [] ty = 6 -> s[1] * s[3] [] ty = 7 -> s[2] * s[2] [] ty = 8 -> s[2] * s[3] [] OTHER -> s[3] * s[3]
Depth(N, g, d) == IF g[d] < 0 THEN -g[d] ELSE IF g[d] >= N[d] THEN g[d] - N[d] + 1 ELSE 0
Interior(N, g) == \A d \in 1..3 : Depth(N, g, d) = 0
\* outward faces a point lies beyond: << direction, inward step >>
Faces(c, N, g) == {<<d, IF g[d] < 0 THEN 1 ELSE -1>> : d \in {d \in 1..3 : Depth(N, g, d) > 0 /\ d \in (IF g[d] < 0 THEN OuterLo(c) ELSE OuterHi(c))}}
Step(g, f, k) == [d \in 1..3 |-> IF d = f[1] THEN g[d] + k * f[2] ELSE g[d]]
=============================================================================
