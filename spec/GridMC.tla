------------------------------- MODULE GridMC -------------------------------
EXTENDS Grid, Json
CONSTANTS Depth, Emit
N(s, e, d) == [s |-> s, empty |-> e, digit |-> d]
One(n, g) == [kind |-> "list", names |-> <<n>>, isbase |-> TRUE, group |-> g, dim |-> 3, rank |-> 0, finf |-> <<"0.0">>, ws |-> <<"1.0">>]
Reqs == {One(n, g) : n \in {N("u", FALSE, FALSE), N("vU0", FALSE, TRUE), N("", TRUE, FALSE), N("B", FALSE, FALSE)}, g \in {"EVOL", "AUX", "FOO"}} \cup
        {[kind |-> "list", names |-> <<N("B", FALSE, FALSE), N("x2", FALSE, TRUE), N("a", FALSE, FALSE)>>, isbase |-> b, group |-> "AUXEVOL", dim |-> 3, rank |-> 0, finf |-> <<"1.0", "2.0", "3.0">>, ws |-> <<"1.0">>] : b \in BOOLEAN} \cup
        {[kind |-> "tensor", base |-> "vU", rank |-> 1, sy |-> <<>>, symstr |-> "", symok |-> TRUE, group |-> g, dim |-> d, finf |-> <<"0.5">>, ws |-> <<"2.0">>] : g \in {"EVOL", "FOO"}, d \in {2, 3, 4}} \cup
        {[kind |-> "tensor", base |-> "gDD", rank |-> 2, sy |-> <<[sign |-> s, slots |-> <<1, 2>>]>>, symstr |-> IF s = 1 THEN "sym01" ELSE "anti01", symok |-> TRUE, group |-> "AUX", dim |-> d, finf |-> <<"0.5">>, ws |-> <<"2.0">>] : s \in {1, -1}, d \in {3, 4}} \cup
        {[kind |-> "tensor", base |-> "gDD", rank |-> 2, sy |-> <<>>, symstr |-> "sym99", symok |-> FALSE, group |-> "AUX", dim |-> 3, finf |-> <<"0.5">>, ws |-> <<"2.0">>]}
VARIABLES reg, n, hist
vars == <<reg, n, hist>>
View == <<reg, n>>
Init == reg = <<>> /\ n = 0 /\ hist = <<>>
Next == /\ n < Depth /\ n' = n + 1
        /\ \E q \in Reqs : reg' = Apply("BHaH", reg, q).reg /\ hist' = Append(hist, q)
        /\ (Emit => PrintT("H|" \o ToJson(hist')))
Spec == Init /\ [][Next]_vars
\* first registration wins
FirstWins == [][\A x \in DOMAIN reg : x \in DOMAIN reg' /\ reg'[x] = reg[x]]_vars
Grouped == \A x \in DOMAIN reg : reg[x].group \in Groups("BHaH")
\* the order of two requests that define no common name does not matter
Commute == \A p, q \in Reqs :
   LET a == Apply("BHaH", Apply("BHaH", reg, p).reg, q)  b == Apply("BHaH", Apply("BHaH", reg, q).reg, p) IN
   (\A x \in DOMAIN a.reg \cap DOMAIN b.reg : a.reg[x] = b.reg[x]) => a.reg = b.reg
=============================================================================
