-------------------------------- MODULE Loops -------------------------------
(* What a generated loop nest visits.                                        *)
(* A dimension is [lo, hi, inc, tile]: the index set {lo, lo+inc, ...} < hi, *)
(* cut in tiles of `tile' points of the number line when tile > 0 (tile is a *)
(* multiple of inc).  Serial nests run in lexicographic order: first all     *)
(* tile loops, outermost dimension first, then all point loops.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Steps(lo, hi, inc) == IF hi <= lo THEN << >> ELSE [j \in 1..((hi - lo + inc - 1) \div inc) |-> lo + inc * (j - 1)]
Min(a, b) == IF a < b THEN a ELSE b
Tiles(d) == IF d.tile > 0 THEN Steps(d.lo, d.hi, d.tile) ELSE <<d.lo>>
InTile(d, b) == IF d.tile > 0 THEN Steps(b, Min(d.hi, b + d.tile), d.inc) ELSE Steps(d.lo, d.hi, d.inc)

RECURSIVE Flat(_, _, _)
Flat(s, a, b) == IF a > b THEN << >> ELSE IF a = b THEN s[a] ELSE LET m == (a + b) \div 2 IN Flat(s, a, m) \o Flat(s, m + 1, b)
RECURSIVE Prod(_)           \* lexicographic product of a sequence of sequences
Prod(S) == IF S = << >> THEN << << >> >>
           ELSE LET R == Prod(Tail(S)) IN
                Flat([j \in 1..Len(Head(S)) |-> [k \in 1..Len(R) |-> <<Head(S)[j]>> \o R[k]]], 1, Len(Head(S)))

Order(dims) ==
  LET n == Len(dims)
      T == Prod([k \in 1..n |-> Tiles(dims[k])])
      P(b) == Prod([k \in 1..n |-> InTile(dims[k], b[k])])
  IN Flat([j \in 1..Len(T) |-> P(T[j])], 1, Len(T))

RECURSIVE Cube(_)            \* the requested region, as a set of index tuples
Cube(S) == IF S = << >> THEN {<< >>} ELSE {<<a>> \o r : a \in Head(S), r \in Cube(Tail(S))}
Region(dims) == Cube([k \in 1..Len(dims) |-> LET s == Steps(dims[k].lo, dims[k].hi, dims[k].inc) IN {s[j] : j \in 1..Len(s)}])

SameBag(v, w) ==             \* same elements, each as often; w has no repeats
  /\ Len(v) = Len(w) /\ {v[j] : j \in 1..Len(v)} = {w[j] : j \in 1..Len(w)}

(* ---- grids -------------------------------------------------------------- *)
RegionDims(region, N, g, w) ==       \* N, g per direction 0,1,2; nest is 2,1,0
  [k \in 1..3 |-> LET d == 4 - k  inc == IF d = 1 THEN w ELSE 1 IN
     CASE region = "all points" -> [lo |-> 0, hi |-> N[d] + 2 * g[d], inc |-> inc, tile |-> 0]
       [] region = "interior" -> [lo |-> g[d], hi |-> g[d] + N[d], inc |-> inc, tile |-> 0]
       [] region = "interior plus one upper" -> [lo |-> g[d], hi |-> g[d] + N[d] + 1, inc |-> inc, tile |-> 0]]

(* ---- slices ------------------------------------------------------------- *)
(* Interior cell centres of a direction with N cells lie at fractions        *)
(* (j+1/2)/N of the coordinate range.  A slice fixes, per direction, all     *)
(* cells or the cells nearest to given fractions a/b (either one on a tie).  *)
Abs(x) == IF x < 0 THEN -x ELSE x
Dist(j, N, t) == Abs(t[2] * (2 * j + 1) - 2 * N * t[1])
Nearest(N, t) == {j \in 0..N-1 : \A k \in 0..N-1 : Dist(j, N, t) <= Dist(k, N, t)}
All == << <<0, 0>> >>
Half == << <<1, 2>> >>  Quarters == << <<1, 4>>, <<3, 4>> >>  First == << <<0, 1>> >>  Ends == << <<0, 1>>, <<1, 1>> >>
Empty == << << >>, << >>, << >> >>
(* family of a coordinate system -> where its axes and planes lie            *)
Slice(fam, what) ==
  CASE fam = "Cartesian" /\ what = "y" -> <<Half, All, Half>>
    [] fam = "Cartesian" /\ what = "z" -> <<Half, Half, All>>
    [] fam = "Cartesian" /\ what = "xy" -> <<All, All, Half>>
    [] fam = "Cartesian" /\ what = "yz" -> <<Half, All, All>>
    [] fam \in {"Spherical", "Ring", "SymTP"} /\ what = "y" -> <<All, Half, Quarters>>
    [] fam = "Ring" /\ what = "z" -> Empty
    [] fam \in {"Spherical", "SymTP"} /\ what = "z" -> <<All, Ends, First>>
    [] fam \in {"Spherical", "Ring", "SymTP"} /\ what = "xy" -> <<All, Half, All>>
    [] fam \in {"Spherical", "Ring", "SymTP"} /\ what = "yz" -> <<All, All, Quarters>>
    [] fam = "Cylindrical" /\ what = "y" -> <<All, Quarters, Half>>
    [] fam = "Cylindrical" /\ what = "z" -> <<First, First, All>>
    [] fam = "Cylindrical" /\ what = "xy" -> <<All, All, Half>>
    [] fam = "Cylindrical" /\ what = "yz" -> <<All, Quarters, All>>
    [] fam = "Wedge" /\ what = "y" -> Empty
    [] fam = "Wedge" /\ what = "z" -> <<All, Half, Half>>
    [] fam = "Wedge" /\ what = "xy" -> <<All, All, Quarters>>
    [] fam = "Wedge" /\ what = "yz" -> <<All, Half, All>>
(* the index sequences a slice loop may use in one direction                 *)
DirChoices(targets, N, g) ==
  IF targets = All THEN {[j \in 1..N |-> g + j - 1]}
  ELSE IF targets = << >> THEN {<< >>}
  ELSE IF Len(targets) = 1 THEN {<<g + a>> : a \in Nearest(N, targets[1])}
  ELSE {<<g + a, g + b>> : a \in Nearest(N, targets[1]), b \in Nearest(N, targets[2])}
SliceOrders(fam, what, N, g) ==
  LET S == Slice(fam, what) IN
  {Prod(<<c, b, a>>) : a \in DirChoices(S[1], N[1], g), b \in DirChoices(S[2], N[2], g), c \in DirChoices(S[3], N[3], g)}

(* test coordinates: any injective-or-not key of the indices will do         *)
Cart(k, p) == ((p[3] * 7 + p[2] * 11 + p[1] * 13 + k * 5) % 17) - 8       \* p is <<i2,i1,i0>>
Idx3(p, N, g) == p[3] + (N[1] + 2 * g) * (p[2] + (N[2] + 2 * g) * p[1])
=============================================================================
