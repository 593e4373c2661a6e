------------------------------ MODULE LoopsTrace ----------------------------
(* kind "nest":  [dims, serial, visits]                                      *)
(* kind "grid":  [region, N, g, w, serial, visits, offs |-> <<d, lane, off>>,*)
(*               idx |-> <<linear indices>>]                                 *)
(* kind "slice": [fam, what, N, g, rows |-> <<[c, i0, i1, i2, idx]>>]        *)
(* kind "reject": [rejected |-> BOOLEAN]                                     *)
(* kind "count": [fam, what, N, g, nums]                                     *)
EXTENDS Loops, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
Visits(t, dims) ==
  LET want == Order(dims) IN
  IF t.visits = want \/ (~t.serial /\ SameBag(t.visits, want)) THEN ""
  ELSE IF SameBag(t.visits, want) THEN "points visited out of nested order"
  ELSE LET X == {t.visits[j] : j \in 1..Len(t.visits)} \ Region(dims)  Y == Region(dims) \ {t.visits[j] : j \in 1..Len(t.visits)} IN
       IF X # {} THEN "visits a point outside the region: " \o ToString(CHOOSE x \in X : TRUE)
       ELSE IF Y # {} THEN "misses a point of the region: " \o ToString(CHOOSE x \in Y : TRUE)
       ELSE "visits a point more than once"
Point(r) == <<r.i2, r.i1, r.i0>>
SliceJudge(t) ==
  LET n == Len(t.rows)  pts == [j \in 1..n |-> Point(t.rows[j])]
      Ord == SliceOrders(t.fam, t.what, t.N, t.g)
      k == CASE t.what = "y" -> <<1>> [] t.what = "z" -> <<2>> [] t.what = "xy" -> <<0, 1>> [] t.what = "yz" -> <<1, 2>>
      oneD == t.what \in {"y", "z"}
  IN IF ~\E o \in Ord : IF oneD THEN SameBag(pts, o) ELSE pts = o THEN "slice does not select the nearest points of the " \o t.what \o " axis or plane"
     ELSE IF oneD /\ \E j \in 1..n-1 : t.rows[j].c[1] > t.rows[j + 1].c[1] THEN "slice rows are not sorted along the axis"
     ELSE IF \E j \in 1..n : t.rows[j].c # [m \in 1..Len(k) |-> Cart(k[m], pts[j])] THEN "slice row carries the wrong coordinate"
     ELSE IF \E j \in 1..n : t.rows[j].idx # Idx3(pts[j], t.N, t.g) THEN "slice row carries data of another point"
     ELSE ""
Count(t) ==
  LET S == Slice(t.fam, t.what)  W == [d \in 1..3 |-> IF S[d] = All THEN (IF t.ghosts THEN t.N[d] + 2 * t.g ELSE t.N[d]) ELSE Len(S[d])] IN
  IF t.nums # W THEN "slice size is " \o ToString(t.nums) \o " instead of " \o ToString(W)
  ELSE IF \E d \in 1..3 : t.pts[d] # << >> /\ ~(t.pts[d] \in DirChoices(S[d], t.N[d], t.g)) THEN "slice plane indices are not the nearest ones"
  ELSE IF \E d \in 1..3 : (S[d] = All) # (t.pts[d] = << >>) THEN "slice fixes the wrong direction"
  ELSE ""
Judge(t) ==
  CASE t.kind = "nest" -> Visits(t, t.dims)
    [] t.kind = "grid" ->
       LET dims == RegionDims(t.region, t.N, t.g, t.w)  v == Visits(t, dims) IN
       IF v # "" THEN v
       ELSE IF \E j \in 1..Len(t.offs) : LET o == t.offs[j] IN o[3] # (IF o[1] = 0 THEN o[2] ELSE 0) THEN "body reads a coordinate-dependent value of another point: " \o ToString(t.offs)
       ELSE IF t.idx # << >> /\ \E j \in 1..Len(t.visits) : t.idx[j] # Idx3(t.visits[j], t.N, t.g[1]) THEN "linear index is not that of the point"
       ELSE ""
    [] t.kind = "slice" -> SliceJudge(t)
    [] t.kind = "count" -> Count(t)
    [] t.kind = "reject" -> IF t.rejected THEN "" ELSE "unsupported option is accepted"
Init == l = 0 /\ bad = {}
Next == /\ l < Len(Trace) /\ l' = l + 1
        /\ LET w == Judge(Trace[l']) IN
           bad' = IF w = "" THEN bad ELSE bad \cup (IF PrintT("BAD|" \o ToString(l') \o "|" \o w) THEN {l'} ELSE {})
Conforms == TRUE
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
