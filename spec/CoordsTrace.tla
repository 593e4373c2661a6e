---------------------------- MODULE CoordsTrace -----------------------------
(* One line: coord, c: class, n, ng, o: origin offset, err, and per grid point*)
(* (x0 fastest) k: index read back for the centre of the cell, m: for another *)
(* place of the cell, e: by the variant relative to the global centre (with   *)
(* no offset), a, b: Cartesian place without/with the offset, z: coordinate   *)
(* read back in cells, scaled.                                                *)
EXTENDS Coords, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
T(t, d) == t.n[d] + 2 * t.ng
Ix(t, g) == 1 + g[1] + t.ng + T(t, 1) * (g[2] + t.ng + T(t, 2) * (g[3] + t.ng))
Pts(t) == {<<a, b, d>> : a \in (-t.ng)..(t.n[1] + t.ng - 1), b \in (-t.ng)..(t.n[2] + t.ng - 1), d \in (-t.ng)..(t.n[3] + t.ng - 1)}
On(D, x, y) == \A d \in D : x[d] = y[d]
BadAt(t, g, D) ==
  LET r == t.r[Ix(t, g)]  p == Map(t.c, t.n, g).p IN
  IF ~Close(r.b, Shift(r.a, t.o)) THEN "the grid's origin does not shift the point"
  ELSE IF ~Close(r.a, t.r[Ix(t, p)].a) THEN "a ghost point and its partner lie in different places"
  ELSE IF ~On(D, r.k, p) THEN "Cartesian place read back as another point"
  ELSE IF ~On(D, r.e, p) THEN "Cartesian place read back by the global variant as another point"
  ELSE IF ~On(D, r.m, p) THEN "a place in a point's cell is not nearest to the point"
  ELSE IF ~\A d \in D : r.z[d] - 10000 * p[d] \in -2..2 THEN "coordinates read back differ"
  ELSE ""
Name(t) == t.coord \o " " \o ToString(t.n) \o " with " \o ToString(t.ng) \o " ghost zones: "
Bad(t) ==
  IF t.err # "" THEN Name(t) \o t.err
  ELSE LET b(D) == {g \in Pts(t) : BadAt(t, g, D) # ""}
           say(D, B, w) == LET g == CHOOSE g \in B : \A h \in B : Ix(t, g) <= Ix(t, h) IN Name(t) \o BadAt(t, g, D) \o w \o " at " \o ToString(g)
           b1 == b({2, 3})  b2 == b({1}) IN
       IF b1 # {} THEN say({2, 3}, b1, "") ELSE IF b2 # {} THEN say({1}, b2, " in x0") ELSE ""
Init == l = 0 /\ bad = 0
Next == /\ l < Len(Trace) /\ l' = l + 1
        /\ LET t == Trace[l + 1] IN
           LET w == Bad(t) IN IF w = "" THEN bad' = bad ELSE PrintT("BAD|" \o ToString(l + 1) \o "|" \o w) /\ bad' = bad + 1
Conforms == TRUE
TraceAccepted == TLCGet("stats").diameter >= Len(Trace)
=============================================================================
