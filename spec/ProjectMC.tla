----------------------------- MODULE ProjectMC ------------------------------
EXTENDS Project, Json
CONSTANTS Depth, Emit
Req == [name : {"f", "g"}, dirs : {<<>>, <<"s">>}, coord : {"", "Cartesian"},
        bad : {"", "noname", "nodesc", "nobody", "includes", "incitem"}, val : {1}]
       \cup [name : {"f"}, dirs : {<<>>}, coord : {"Cartesian"}, bad : {"griddata"}, val : {1}]
       \cup [name : {"f__rfm__Cartesian"}, dirs : {<<>>}, coord : {""}, bad : {""}, val : {2}]
VARIABLES reg, n, hist
vars == <<reg, n, hist>>
View == <<reg, n>>
Init == reg = Empty /\ n = 0 /\ hist = <<>>
Next == /\ n < Depth /\ n' = n + 1
        /\ \E c \in Req : reg' = Register(reg, c) /\ hist' = Append(hist, c)
        /\ (Emit => PrintT("H|" \o ToJson(hist')))
Spec == Init /\ [][Next]_vars
\* one file per function, and no two functions share a file
Bijective == Cardinality(Files(reg, "", "c")) = Cardinality(DOMAIN reg)
Kept == [][\A x \in DOMAIN reg : x \in DOMAIN reg' /\ reg'[x] = reg[x]]_vars
OneAtATime == [][Cardinality(DOMAIN reg') - Cardinality(DOMAIN reg) \in {0, 1}]_vars
=============================================================================
