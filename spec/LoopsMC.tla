------------------------------- MODULE LoopsMC ------------------------------
(* An operational model of the emitted nest: tile loops outside, point loops *)
(* inside, executed one header evaluation at a time.  TLC checks that it     *)
(* visits the region exactly once in the order Order, for all small bounds.  *)
EXTENDS Loops
CONSTANTS D, Lo, Hi, MaxInc, MaxMul, Emit
VARIABLES dims, ix, lev, vis, pc
Rec == [lo : {x - 2 : x \in Lo}, hi : {x - 2 : x \in Hi}, inc : 1..MaxInc, mul : 0..MaxMul]
Dim(r) == [lo |-> r.lo, hi |-> r.hi, inc |-> r.inc, tile |-> r.mul * r.inc]
(* levels 1..D are tile loops (absent when tile = 0), D+1..2D point loops    *)
Bound(l) == IF l <= D THEN dims[l].hi
            ELSE LET d == dims[l - D] IN IF d.tile > 0 THEN Min(d.hi, ix[l - D] + d.tile) ELSE d.hi
Stride(l) == IF l <= D THEN dims[l].tile ELSE dims[l - D].inc
Start(l) == IF l <= D THEN dims[l].lo ELSE IF dims[l - D].tile > 0 THEN ix[l - D] ELSE dims[l - D].lo
Real(l) == l > D \/ dims[l].tile > 0
Init == /\ dims \in {[k \in 1..D |-> Dim(r[k])] : r \in [1..D -> Rec]}
        /\ (\A j, k \in 1..D : (dims[j].tile = 0) = (dims[k].tile = 0))
        /\ ix = [l \in 1..2 * D |-> 0] /\ lev = 1 /\ vis = << >> /\ pc = "enter"
        /\ IF Emit THEN PrintT("H|" \o ToString(dims)) ELSE TRUE
Enter == /\ pc = "enter"
         /\ IF lev > 2 * D THEN /\ vis' = Append(vis, [k \in 1..D |-> ix[D + k]]) /\ lev' = lev - 1 /\ pc' = "step" /\ UNCHANGED ix
            ELSE /\ ix' = [ix EXCEPT ![lev] = Start(lev)] /\ pc' = IF Real(lev) THEN "test" ELSE "enter"
                 /\ lev' = (IF Real(lev) THEN lev ELSE lev + 1) /\ UNCHANGED vis
         /\ UNCHANGED dims
Test == /\ pc = "test" /\ UNCHANGED <<dims, vis, ix>>
        /\ IF ix[lev] < Bound(lev) THEN pc' = "enter" /\ lev' = lev + 1
           ELSE pc' = "step" /\ lev' = lev - 1
Step == /\ pc = "step" /\ UNCHANGED <<dims, vis>>
        /\ IF lev = 0 THEN pc' = "done" /\ UNCHANGED <<ix, lev>>
           ELSE IF ~Real(lev) THEN lev' = lev - 1 /\ UNCHANGED <<ix, pc>>
           ELSE ix' = [ix EXCEPT ![lev] = @ + Stride(lev)] /\ pc' = "test" /\ UNCHANGED lev
Next == Enter \/ Test \/ Step
Spec == Init /\ [][Next]_<<dims, ix, lev, vis, pc>> /\ WF_<<dims, ix, lev, vis, pc>>(Next)
Once == pc = "done" => /\ vis = Order(dims)
                       /\ Len(vis) = Cardinality({vis[j] : j \in 1..Len(vis)})
                       /\ {vis[j] : j \in 1..Len(vis)} = Region(dims)
Untiled == pc = "done" /\ dims[1].tile = 0 => \A j \in 1..Len(vis) - 1 : \E k \in 1..D : vis[j][k] < vis[j + 1][k] /\ \A m \in 1..k - 1 : vis[j][m] = vis[j + 1][m]
Ends1 == <>(pc = "done")
(* slices: for even N the truncated formulas of the code pick nearest cells  *)
ASSUME \A n \in 1..12 : /\ (n \div 2) \in Nearest(n, <<1, 2>>)
                        /\ Nearest(n, <<0, 1>>) = {0} /\ Nearest(n, <<1, 1>>) = {n - 1}
ASSUME \A n \in 1..8 : ((2 * n - 2) \div 4) \in Nearest(2 * n, <<1, 4>>) /\ ((6 * n - 2) \div 4) \in Nearest(2 * n, <<3, 4>>)
=============================================================================
