------------------------------ MODULE Wrapper -------------------------------
(* Functions specialised per coordinate system, their dispatching wrappers,  *)
(* and the precomputed metric storage of each grid.                          *)
(*   reg   : function -> set of coordinate systems it is specialised for     *)
(*   coord : grid -> coordinate system it is set to ("?" = none of them)     *)
(*   store : grid -> "none" | "alloc" | "filled"                             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Funcs, Coords, Grids, MaxLen, Emit
VARIABLES reg, coord, store, dead, hist
vars == <<reg, coord, store, dead, hist>>
Unknown == "?"
Init == /\ reg \in [Funcs -> SUBSET Coords \ {{}}]
        /\ coord = [g \in Grids |-> Unknown]
        /\ store = [g \in Grids |-> "none"] /\ dead = FALSE /\ hist = <<>>
\* the effect of calling wrapper f on a grid set to c: the specialisation run, or abort
Dispatch(r, f, c) == IF c \in r[f] THEN c ELSE "abort"
Add(e) == hist' = Append(hist, e) /\ UNCHANGED reg
Set(g, c) == /\ store[g] = "none" /\ coord' = [coord EXCEPT ![g] = c]
             /\ Add([op |-> "set", g |-> g, x |-> c]) /\ UNCHANGED <<store, dead>>
Call(f, g) == /\ dead' = (Dispatch(reg, f, coord[g]) = "abort")
              /\ Add([op |-> "call", g |-> g, x |-> f]) /\ UNCHANGED <<coord, store>>
Storage(g, op, from, to) == /\ coord[g] # Unknown /\ store[g] \in from /\ store' = [store EXCEPT ![g] = to]
                            /\ Add([op |-> op, g |-> g, x |-> coord[g]]) /\ UNCHANGED <<coord, dead>>
Next == /\ ~dead /\ Len(hist) < MaxLen
        /\ \E g \in Grids : \/ \E c \in Coords \cup {Unknown} : Set(g, c)
                            \/ \E f \in Funcs : Call(f, g)
                            \/ Storage(g, "malloc", {"none"}, "alloc")
                            \/ Storage(g, "fill", {"alloc", "filled"}, "filled")
                            \/ Storage(g, "read", {"filled"}, "filled")
                            \/ Storage(g, "free", {"alloc", "filled"}, "none")
        /\ (Emit /\ Len(hist') = MaxLen => PrintT("H|" \o ToJson([r |-> reg, h |-> hist'])))
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
\* dispatch runs only a registered specialisation, and that of the grid's own system
DispatchSound == \A f \in Funcs, g \in Grids :
   LET d == Dispatch(reg, f, coord[g]) IN d = "abort" \/ (d = coord[g] /\ d \in reg[f])
DispatchComplete == \A f \in Funcs, g \in Grids : coord[g] \in reg[f] => Dispatch(reg, f, coord[g]) = coord[g]
\* allocation balance recomputed from the history
Count(g, op) == Cardinality({i \in 1..Len(hist) : hist[i].op = op /\ hist[i].g = g})
Balance == \A g \in Grids : Count(g, "malloc") - Count(g, "free") = (IF store[g] = "none" THEN 0 ELSE 1)
Owned == \A g \in Grids : store[g] # "none" => coord[g] # Unknown
=============================================================================
