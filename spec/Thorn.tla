------------------------------- MODULE Thorn --------------------------------
(* Registrations distributed over Einstein Toolkit thorns, and what the      *)
(* generated thorn files must say.                                           *)
(*  gfs   : name -> [group, dim, idx]   idx = sequence of index values       *)
(*  funs  : name -> [thorn, bins, pars] bins = sequence of bin names         *)
(* Generating a thorn writes out[thorn] = what its files declare.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Thorns, Names, Bins, Pars, MaxReg, Emit, Bug
VARIABLES gfs, funs, out, hist
vars == <<gfs, funs, out, hist>>
Groups == {"EVOL", "AUX", "AUXEVOL"}
\* parity of a component under reflection of axis a (1..3): one sign per index along that axis
RECURSIVE Sign(_, _, _)
Sign(dim, idx, a) == IF idx = <<>> THEN 1
   ELSE (IF Head(idx) = (IF dim = 4 THEN a ELSE a - 1) THEN 0 - 1 ELSE 1) * Sign(dim, Tail(idx), a)
Parity(dim, idx) == <<Sign(dim, idx, 1), Sign(dim, idx, 2), Sign(dim, idx, 3)>>
Members(G, grp) == {n \in DOMAIN G : G[n].group = grp}
Sources(F, t) == {f \in DOMAIN F : F[f].thorn = t}
Sched(F, t) == UNION {{<<f, i, F[f].bins[i]>> : i \in 1..Len(F[f].bins)} : f \in Sources(F, t)}
Params(F, t) == UNION {F[f].pars : f \in (IF Bug = "allthorns" THEN DOMAIN F ELSE Sources(F, t))}
----------------------------------------------------------------------------
Init == gfs = <<>> /\ funs = <<>> /\ out = <<>> /\ hist = <<>>
Size == Cardinality(DOMAIN gfs) + Cardinality(DOMAIN funs)
Log(r) == hist' = Append(hist, r)
RegGF == \E n \in Names \ DOMAIN gfs, g \in Groups : Size < MaxReg /\ out = <<>>
           /\ gfs' = gfs @@ (n :> [group |-> g, dim |-> 3, idx |-> <<>>]) /\ Log([op |-> "gf", n |-> n, a |-> g, b |-> <<>>, p |-> <<>>]) /\ UNCHANGED <<funs, out>>
RegFun == \E n \in Names \ DOMAIN funs, t \in Thorns, b \in {<<>>} \cup {<<x>> : x \in Bins} \cup {<<x, y>> : x, y \in Bins}, p \in SUBSET Pars : Size < MaxReg /\ out = <<>>
           /\ funs' = funs @@ (n :> [thorn |-> t, bins |-> b, pars |-> p]) /\ Log([op |-> "fun", n |-> n, a |-> t, b |-> b, p |-> p]) /\ UNCHANGED <<gfs, out>>
Generate == \E t \in Thorns \ DOMAIN out :
           /\ out' = out @@ (t :> [src |-> Sources(funs, t), sched |-> Sched(funs, t), pars |-> Params(funs, t), evol |-> Members(gfs, "EVOL"), aux |-> Members(gfs, "AUX")])
           /\ hist' = hist /\ UNCHANGED <<gfs, funs>>
           /\ (Emit /\ DOMAIN out' = Thorns => PrintT("H|" \o ToJson(hist)))
Next == RegGF \/ RegFun \/ Generate
Spec == Init /\ [][Next]_vars
Done == DOMAIN out = Thorns
EveryFunctionInOneThorn == Done => \A f \in DOMAIN funs : Cardinality({t \in Thorns : f \in out[t].src}) = 1
EveryEntryScheduled == Done => \A f \in DOMAIN funs : \A i \in 1..Len(funs[f].bins) :
                          \A t \in Thorns : (<<f, i, funs[f].bins[i]>> \in out[t].sched) <=> t = funs[f].thorn
OnlyOwnParams == Done => \A t \in Thorns : \A p \in out[t].pars : \E f \in DOMAIN funs : funs[f].thorn = t /\ p \in funs[f].pars
\* reflecting twice is the identity, and a product of components has the product of parities
ParityGroup == \A d \in {3, 4}, i, j \in 0..3, a \in 1..3 :
                  /\ Sign(d, <<i, j>>, a) = Sign(d, <<i>>, a) * Sign(d, <<j>>, a) /\ Sign(d, <<i, i>>, a) = 1
=============================================================================
