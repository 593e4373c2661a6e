----------------------------- MODULE ChareTrace -----------------------------
(* What one chare of a compiled superB program knows about the grid, once     *)
(* set-up is done.  One line = cfg, N, nc, ng, c: chare number, n, e: its     *)
(* sizes, global: local to global point numbers, owner, local: the global     *)
(* tables (same on every chare), x, X: coordinates here and of the whole      *)
(* grid (scaled), q, Q: spacings, inverse spacings, lower and upper ends,     *)
(* inner, ginner: inner boundary points <<to, from, parities>>, outer,        *)
(* gouter: outer ones <<layer, direction, point, face>>, src, want, wdst:     *)
(* chares it receives boundary data from, points wanted, where they go,       *)
(* psend: what those chares send to it, y: values after the exchange, sync:   *)
(* which grid functions are exchanged, err.                                   *)
EXTENDS Chare, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
Rng(s) == {s[i] : i \in 1..Len(s)}
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b) == Abs(a - b) <= 2
Cfg(t) == [N |-> <<t.N[1], t.N[2], t.N[3]>>, nc |-> <<t.nc[1], t.nc[2], t.nc[3]>>, ng |-> t.ng]
Me(t) == CUn(Cfg(t), t.c)
Sizes(t) == \A d \in Dims : t.n[d] = Size(Cfg(t), d) /\ t.e[d] = Ext(Cfg(t), d)
NL(C) == Ext(C, 1) * Ext(C, 2) * Ext(C, 3)
NGl(C) == GExt(C, 1) * GExt(C, 2) * GExt(C, 3)
GlobalOK(t) == LET C == Cfg(t) IN Len(t.global) = NL(C) /\ \A i \in 1..NL(C) : t.global[i] = GLin(C, Global(C, Me(t), LUn(C, i - 1)))
OwnerOK(t) == LET C == Cfg(t) IN t.c # 0 \/ \A i \in 1..NGl(C) : t.owner[i] = CLin(C, Owner(C, GUn(C, i - 1)))
LocalOK(t) == LET C == Cfg(t) IN t.c # 0 \/ \A i \in 1..NGl(C) : t.local[i] = LLin(C, Local(C, GUn(C, i - 1)))
CoordOK(t) == \A d \in Dims : Len(t.x[d]) = t.e[d] /\ \A i \in 1..t.e[d] : Near(t.x[d][i], t.X[d][i + Me(t)[d] * t.n[d]])
SpacingOK(t) == \A i \in 1..6 : Near(t.q[i], t.Q[i])
\* the chare's interior starts and ends where its share of the grid does
EndsOK(t) == \A d \in Dims : LET a == t.Q[6 + d] b == t.Q[9 + d] w == (b - a) \div t.nc[d] IN
  Abs(t.q[6 + d] - (a + Me(t)[d] * w)) <= 2 + t.nc[d] /\ Abs(t.q[9 + d] - (a + (Me(t)[d] + 1) * w)) <= 2 + t.nc[d]
Own(t, g) == LET C == Cfg(t) IN CLin(C, Owner(C, GUn(C, g)))
Loc(t, g) == LET C == Cfg(t) IN LLin(C, Local(C, GUn(C, g)))
Mine(t) == {p \in Rng(t.ginner) : Own(t, p[1]) = t.c}
InnerOK(t) == LET w == {<<Loc(t, p[1]), Loc(t, p[2]), p[3]>> : p \in {p \in Mine(t) : Own(t, p[2]) = t.c}} IN Rng(t.inner) = w /\ Len(t.inner) = Cardinality(w)
Far(t) == {p \in Mine(t) : Own(t, p[2]) # t.c}
SrcOK(t) == Rng(t.src) = {Own(t, p[2]) : p \in Far(t)} /\ Len(t.src) = Cardinality(Rng(t.src))
Pairs(t) == {<<t.wdst[i][j][1], t.want[i][j], t.wdst[i][j][2], t.src[i]>> : <<i, j>> \in {<<i, j>> \in (1..Len(t.src)) \X (1..t.maxw) : j <= Len(t.want[i])}}
WantOK(t) == LET w == {<<Loc(t, p[1]), p[2], p[3], Own(t, p[2])>> : p \in Far(t)} IN Pairs(t) = w /\ t.nwant = Cardinality(w)
SendOK(t) == \A i \in 1..Len(t.src) : t.psend[i] = t.want[i]
OuterOK(t) == LET C == Cfg(t) w == {<<p[1], p[2], Local(C, <<p[3], p[4], p[5]>>), <<p[6], p[7], p[8]>>>> : p \in {p \in Rng(t.gouter) : CLin(C, Owner(C, <<p[3], p[4], p[5]>>)) = t.c}}
  IN {<<p[1], p[2], <<p[3], p[4], p[5]>>, <<p[6], p[7], p[8]>>>> : p \in Rng(t.outer)} = {<<p[1], p[2], <<p[3][1], p[3][2], p[3][3]>>, p[4]>> : p \in w} /\ Len(t.outer) = Cardinality(w)
FilledOK(t) == LET C == Cfg(t) IN \A f \in 1..Len(t.y) : \A i \in 1..NL(C) : LET p == LUn(C, i - 1) g == Global(C, Me(t), p) IN
  (GInterior(C, g) /\ (t.sync[f] = 1 \/ LInterior(C, p))) => t.y[f][i] = 1 + GLin(C, g) + 100000 * (f - 1)
Why(t) ==
  IF t.err # "" THEN t.err
  ELSE IF ~Sizes(t) THEN "the chares' sizes do not tile the grid"
  ELSE IF ~GlobalOK(t) THEN "the local to global table is wrong"
  ELSE IF ~OwnerOK(t) THEN "the table of owners is wrong"
  ELSE IF ~LocalOK(t) THEN "the global to local table is wrong"
  ELSE IF ~t.same THEN "chares disagree on the global tables"
  ELSE IF ~CoordOK(t) THEN "coordinates differ from those of the whole grid"
  ELSE IF ~SpacingOK(t) THEN "spacings differ from those of the whole grid"
  ELSE IF ~EndsOK(t) THEN "the chare's extent is not its share of the grid"
  ELSE IF ~InnerOK(t) THEN "local inner boundary points are not those of the whole grid"
  ELSE IF ~SrcOK(t) THEN "the list of chares that supply boundary data is wrong"
  ELSE IF ~WantOK(t) THEN "boundary points wanted from other chares are not those of the whole grid"
  ELSE IF ~SendOK(t) THEN "a supplying chare sends other points than those wanted"
  ELSE IF ~OuterOK(t) THEN "outer boundary points are not those of the whole grid"
  ELSE IF ~FilledOK(t) THEN "a ghost point does not hold its neighbour's value after the exchange"
  ELSE ""
Init == l = 0 /\ bad = 0
Next == /\ l < Len(Trace) /\ l' = l + 1
        /\ LET t == Trace[l + 1] IN
           LET w == Why(t) IN IF w = "" THEN bad' = bad ELSE PrintT("BAD|" \o ToString(l + 1) \o "|" \o t.name \o ": " \o w) /\ bad' = bad + 1
Conforms == TRUE
TraceAccepted == TLCGet("stats").diameter >= Len(Trace)
=============================================================================
