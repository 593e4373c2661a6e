------------------------------- MODULE BCsMC --------------------------------
(* The map and signs of BCs.tla are geometric: trigonometric and radial       *)
(* functions are opaque tables that have only the right symmetries.  Filling  *)
(* layer by layer, then inner points, fills every ghost point from points     *)
(* that are already filled.                                                   *)
EXTENDS BCs, TLC, Json
CONSTANTS A, B, D, NG, Emit
Sizes == A \X B \X D
VARIABLES c, N, filled, layer, dir
vars == <<c, N, filled, layer, dir>>
Pts(n, k) == {<<a, b, d>> : a \in (-k)..(n[1] + k - 1), b \in (-k)..(n[2] + k - 1), d \in (-k)..(n[3] + k - 1)}
Ok(cc, n) == /\ \A d \in Even(cc) : n[d] % 2 = 0
             /\ \A d \in OuterLo(cc) \cup OuterHi(cc) : n[d] >= 3
             /\ \A d \in 1..3 : n[d] >= NG \/ d \notin OuterLo(cc) \cup OuterHi(cc)
             /\ (cc \in {"sph", "symtp", "cyl"} => n[1] >= NG) /\ (cc \in {"sph", "symtp", "holey"} => n[2] >= NG)
\* odd table, period 4n half cells, symmetric about the quarter: sin of a half-cell angle when pi is 2n half cells
Quad(h) == IF h = 0 THEN 0 ELSE 100 + 7 * h * h
Sn(n, h) == LET k == h % (4 * n) IN IF k <= n THEN Quad(k) ELSE IF k <= 2 * n THEN Quad(2 * n - k) ELSE IF k <= 3 * n THEN -Quad(k - 2 * n) ELSE -Quad(4 * n - k)
Cs(n, h) == Sn(n, h + n)
Odd(h) == IF h < 0 THEN -(h * h + 50) ELSE h * h + 50
Evn(h) == 3 * h * h + 11
H(i) == 2 * i + 1
\* polar angle: pi = 2 N half cells; azimuth: 2 pi = 2 N half cells, so pi = N half cells: doubled to keep integers
Th(n, i) == [s |-> Sn(n, H(i)), c |-> Cs(n, H(i))]
Ph(n, i) == [s |-> Sn(n, 2 * H(i)), c |-> Cs(n, 2 * H(i))]
Cart(cc, n, g) ==
  CASE cc \in {"sph", "holey"} -> LET r == Odd(H(g[1])) t == Th(n[2], g[2]) f == Ph(n[3], g[3]) IN <<r * t.s * f.c, r * t.s * f.s, r * t.c>>
    [] cc = "symtp" -> LET r == Odd(H(g[1])) z == Evn(H(g[1])) t == Th(n[2], g[2]) f == Ph(n[3], g[3]) IN <<r * t.s * f.c, r * t.s * f.s, z * t.c>>
    [] cc = "ring" -> LET f == Ph(n[3], g[3]) IN <<g[1], g[2], f.c, f.s>>
    [] cc = "cyl" -> LET r == Odd(H(g[1])) f == Ph(n[2], g[2]) IN <<r * f.c, r * f.s, g[3]>>
    [] OTHER -> g
\* unit vectors up to positive factors
UV(cc, n, g) ==
  CASE cc \in {"sph", "holey"} -> LET t == Th(n[2], g[2]) f == Ph(n[3], g[3]) IN << <<t.s * f.c, t.s * f.s, t.c>>, <<t.c * f.c, t.c * f.s, -t.s>>, <<-f.s, f.c, 0>> >>
    [] cc = "symtp" -> LET r == Odd(H(g[1])) z == Evn(H(g[1])) t == Th(n[2], g[2]) f == Ph(n[3], g[3]) IN << <<z * t.s * f.c, z * t.s * f.s, r * t.c>>, <<r * t.c * f.c, r * t.c * f.s, -z * t.s>>, <<-f.s, f.c, 0>> >>
    [] cc = "cyl" -> LET f == Ph(n[2], g[2]) IN << <<f.c, f.s, 0>>, <<-f.s, f.c, 0>>, <<0, 0, 1>> >>
    [] OTHER -> << <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>> >>
Scl(k, v) == [i \in 1..3 |-> k * v[i]]
Init == /\ c \in Classes /\ N \in Sizes /\ Ok(c, N)
        /\ filled = {g \in Pts(N, NG) : Interior(N, g)} /\ layer = 1 /\ dir = 1
Pure(g) == Map(c, N, g).p = g
\* the points treated with face direction d in layer k: everything within the box grown so far
Batch(k, d) == {g \in Pts(N, NG) : Depth(N, g, d) = k /\ (\A e \in 1..3 : Depth(N, g, e) <= (IF e < d THEN k ELSE IF e = d THEN k ELSE k - 1)) /\ Pure(g)}
Needs(g, d) == {Step(g, <<d, IF g[d] < 0 THEN 1 ELSE -1>>, j) : j \in 1..3}
Next == \/ /\ layer <= NG /\ filled' = filled \cup Batch(layer, dir)
           /\ (IF dir < 3 THEN dir' = dir + 1 /\ layer' = layer ELSE dir' = 1 /\ layer' = layer + 1)
           /\ UNCHANGED <<c, N>>
        \/ /\ layer = NG + 1 /\ filled' = filled \cup {g \in Pts(N, NG) : ~Pure(g)} /\ layer' = NG + 2 /\ UNCHANGED <<c, N, dir>>
Spec == Init /\ [][Next]_vars
Geometric == layer > 1 \/ dir > 1 \/ \A g \in Pts(N, NG) : LET m == Map(c, N, g) IN
  /\ Cart(c, N, m.p) = Cart(c, N, g)
  /\ \A i \in 1..3 : UV(c, N, g)[i] = Scl(m.s[i], UV(c, N, m.p)[i])
  /\ Map(c, N, m.p) = [p |-> m.p, s |-> <<1, 1, 1>>]
  /\ (Interior(N, g) => m.p = g)
  /\ (m.p = g <=> (Interior(N, g) \/ (Faces(c, N, g) # {} /\ \A d \in 1..3 : Depth(N, g, d) > 0 => \E f \in Faces(c, N, g) : f[1] = d)))
FromFilled == layer <= NG => \A g \in Batch(layer, dir) : /\ Needs(g, dir) \subseteq filled /\ g \notin filled
                                                          /\ <<dir, IF g[dir] < 0 THEN 1 ELSE -1>> \in Faces(c, N, g)
InnerFromFilled == layer = NG + 1 => \A g \in Pts(N, NG) : Map(c, N, g).p \in filled
AllFilled == layer = NG + 2 => filled = Pts(N, NG)
Out == (Emit /\ layer = 1 /\ dir = 1) => PrintT("H|" \o ToJson([c |-> c, N |-> N]))
=============================================================================
