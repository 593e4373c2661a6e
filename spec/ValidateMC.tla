----------------------------- MODULE ValidateMC -----------------------------
EXTENDS Validate, Json
CONSTANTS MaxOps, Emit, Bases
VARIABLES store, hist, res
E(c, p, f) == [c |-> c, p |-> p, f |-> f]
S(n, e) == [n |-> n, list |-> FALSE, skip |-> FALSE, e |-> <<e>>]
L(n, es) == [n |-> n, list |-> TRUE, skip |-> FALSE, e |-> es]
Dicts == << <<S("A", E("sin2x", 0, 0)), S("B", E("sq", 0, 0))>>,
            <<S("B", E("sq", 0, 1)), S("A", E("sin2x", 0, 1))>>,          \* equal to 1
            <<S("A", E("sin2x", 22, 0)), S("B", E("sq", 0, 0))>>,         \* 22 digits only
            <<S("A", E("sin2x", 27, 1)), S("B", E("sq", 0, 0))>>,         \* 27 digits: equal
            <<S("A", E("sin2x", 0, 0))>>,                                 \* missing
            <<S("A", E("sin2x", 0, 0)), S("C", E("sq", 0, 0))>>,          \* renamed
            <<L("A", <<E("sin2x", 0, 0), E("zero", 0, 1)>>), S("B", E("nan", 0, 0))>> >>
Init == store = << >> /\ hist = << >> /\ res = << >>
Do(b, k) == /\ hist' = Append(hist, [b |-> b, k |-> k]) /\ res' = Append(res, Result(store, b, Dicts[k]))
            /\ store' = After(store, b, Dicts[k])
            /\ IF Emit THEN PrintT("H|" \o ToJson(hist')) ELSE TRUE
Drop(b) == /\ b \in DOMAIN store /\ store' = [k \in DOMAIN store \ {b} |-> store[k]]
           /\ hist' = Append(hist, [b |-> b, k |-> 0]) /\ res' = Append(res, "dropped")
Next == Len(hist) < MaxOps /\ \E b \in Bases : Drop(b) \/ \E k \in 1..Len(Dicts) : Do(b, k)
Spec == Init /\ [][Next]_<<store, hist, res>>
(* a comparison never changes a trusted file; acceptance is an equivalence   *)
(* compatible with the order of entries, and never spans different names     *)
Frozen == \A b \in DOMAIN store : \E j \in 1..Len(hist) : hist[j].b = b /\ res[j] = "generated" /\ store[b] = Dicts[hist[j].k]
Rev(d) == [j \in 1..Len(d) |-> d[Len(d) + 1 - j]]
ASSUME \A a, b \in 1..Len(Dicts) : LET x == Dicts[a]  y == Dicts[b] IN
         /\ Verdict(x, y) = Verdict(y, x) /\ Verdict(x, y) = Verdict(Rev(x), y) /\ Verdict(x, x) = "yes"
         /\ (Names(x) # Names(y) => Verdict(x, y) = "no")
         /\ (Asserted(x, y) = "yes" => Verdict(x, y) = "yes")
=============================================================================
