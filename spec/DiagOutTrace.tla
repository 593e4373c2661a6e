---------------------------- MODULE DiagOutTrace ----------------------------
(* One line per file: coord, fam, what ("0", "y", "z", "xy", "yz"), N, g, err,*)
(* cart: Cartesian place of each point (x0 fastest, ghosts included), fixed   *)
(* point; outs: the outputs made to it, [nn, t]; rows: [c |-> leading columns,*)
(* v |-> quantities]; q: the quantities, [a, b, m]: the value at linear index *)
(* i in step nn is a * i + b * nn + m.                                        *)
EXTENDS DiagOut, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
Vals(t, i, nn) == [k \in 1..Len(t.q) |-> t.q[k].a * i + t.q[k].b * nn + t.q[k].m]
Near(a, b) == a - b \in -1..1
\* outputs that still show: from the last first step on
Live(t) == LET f == {i \in 1..Len(t.outs) : t.outs[i].nn = 0} IN IF f = {} THEN t.outs ELSE LET s == CHOOSE s \in f : \A k \in f : k <= s IN SubSeq(t.outs, s, Len(t.outs))
Ax(t) == CASE t.what = "y" -> <<2>> [] t.what = "z" -> <<3>> [] t.what = "xy" -> <<1, 2>> [] t.what = "yz" -> <<2, 3>> [] OTHER -> << >>
\* the rows of one slice output (a sequence of rows), o: an admissible order of points
RowIs(t, r, p, nn) == /\ Len(r.c) = Len(Ax(t)) /\ r.v = Vals(t, Idx3(p, t.N, t.g), nn)
                      /\ \A k \in 1..Len(r.c) : Near(r.c[k], t.cart[Idx3(p, t.N, t.g) + 1][Ax(t)[k]])
Pt(t, i) == LET W1 == t.N[1] + 2 * t.g  W2 == t.N[2] + 2 * t.g IN <<i \div (W1 * W2), (i \div W1) % W2, i % W1>>
SliceOK(t, rows, nn) ==
  \E o \in SliceOrders(t.fam, t.what, t.N, t.g) :
    /\ Len(o) = Len(rows)
    /\ IF t.what \in {"y", "z"} THEN
         /\ \A i \in 1..Len(rows) - 1 : rows[i].c[1] <= rows[i + 1].c[1]
         /\ {Idx3(o[i], t.N, t.g) : i \in 1..Len(o)} = {(rows[i].v[1] - t.q[1].b * nn - t.q[1].m) \div t.q[1].a : i \in 1..Len(rows)}
         /\ \A i \in 1..Len(rows) : RowIs(t, rows[i], Pt(t, (rows[i].v[1] - t.q[1].b * nn - t.q[1].m) \div t.q[1].a), nn)
       ELSE \A i \in 1..Len(rows) : RowIs(t, rows[i], o[i], nn)
Centres(t) == {p \in (0..t.N[3] - 1) \X (0..t.N[2] - 1) \X (0..t.N[1] - 1) : IsCentre(t.fam, t.N, p)}
CentreOK(t, r, o) == /\ Len(r.c) = 1 /\ Near(r.c[1], o.t)
                     /\ \E p \in Centres(t) : r.v = Vals(t, Idx3(<<p[1] + t.g, p[2] + t.g, p[3] + t.g>>, t.N, t.g), o.nn)
Size(t) == LET o == CHOOSE o \in SliceOrders(t.fam, t.what, t.N, t.g) : TRUE IN Len(o)
Bad(t) ==
  LET L == Live(t)  n == IF t.what = "0" THEN 1 ELSE Size(t) IN
  IF t.err # "" THEN t.err
  ELSE IF Len(t.rows) # n * Len(L) THEN "file has " \o ToString(Len(t.rows)) \o " rows instead of " \o ToString(n * Len(L))
  ELSE IF t.what = "0" THEN (IF \E i \in 1..Len(L) : ~CentreOK(t, t.rows[i], L[i]) THEN "row is not the time and the quantities at the grid centre" ELSE "")
  ELSE IF \E i \in 1..Len(L) : ~SliceOK(t, SubSeq(t.rows, n * (i - 1) + 1, n * i), L[i].nn) THEN "rows are not the quantities and places of the points of the slice" ELSE ""
Init == l = 0 /\ bad = 0
Next == /\ l < Len(Trace) /\ l' = l + 1
        /\ LET t == Trace[l + 1] IN
           LET w == Bad(t) IN IF w = "" THEN bad' = bad ELSE PrintT("BAD|" \o ToString(l + 1) \o "|" \o t.coord \o " " \o ToString(t.N) \o ", output " \o t.what \o ": " \o w) /\ bad' = bad + 1
Conforms == TRUE
TraceAccepted == TLCGet("stats").diameter >= Len(Trace)
=============================================================================
