------------------------------ MODULE CoordsMC ------------------------------
(* Every grid of a class up to the given sizes: converting a point to its     *)
(* place and reading the place back is well defined.                          *)
EXTENDS Coords, TLC
CONSTANTS A, B, D, NG
VARIABLES c, N, g, back
Sizes(k) == {s \in A \X B \X D : \A d \in Even(k) : s[d] % 2 = 0}
Range(s, d) == (-NG)..(s[d] + NG - 1)
Init == /\ c \in Classes /\ N \in Sizes(c) /\ \A d \in OuterLo(c) \cup OuterHi(c) : N[d] >= NG
        /\ g = <<0, 0, 0>> /\ back = <<0, 0, 0>>
\* a point is written down as a place, then read back: the reader only sees the place
Go == /\ \E p \in Range(N, 1) \X Range(N, 2) \X Range(N, 3) : g' = p /\ back' = Map(c, N, p).p
      /\ UNCHANGED <<c, N>>
Spec == Init /\ [][Go]_<<c, N, g, back>>
Idempotent == Map(c, N, back).p = back
\* a place read back is interior or beyond outer faces only
Known == \A d \in 1..3 : \/ back[d] \in 0..(N[d] - 1) \/ (back[d] < 0 /\ d \in OuterLo(c)) \/ (back[d] >= N[d] /\ d \in OuterHi(c))
InteriorFixed == Interior(N, g) => back = g
ASSUME \A s \in {1, 2, 3, 7, 10} : Centred(s) /\ Tiles(s, -40..40) /\ TruncRight(s, 0..40)
ASSUME ~TruncRight(5, -3..3)       \* why the conversion must not see indices below the first ghost cell
=============================================================================
