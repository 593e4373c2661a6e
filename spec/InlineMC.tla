------------------------------ MODULE InlineMC ------------------------------
EXTENDS Inline, TLC, Json
CONSTANTS MaxLen, Emit
VARIABLES file, s
Init == file = << >> /\ s = S0
Add == Len(file) < MaxLen /\ \E k \in Kinds : file' = Append(file, k) /\ s' = Line(s, k)
Spec == Init /\ [][Add]_<<file, s>>
\* reading line by line and reading the whole file agree
Agrees == End(s) = Run(S0, file)
Count(k) == Len(SelectSeq(file, LAMBDA z : z = k))
\* a file that ends well has as many starts as ends, and everything between markers was run exactly once, in order, and nothing else
Marked == {i \in 1..Len(file) : file[i] \notin {"S", "E"} /\ LET q == {j \in 1..i : file[j] \in {"S", "E"}} IN q # {} /\ file[CHOOSE j \in q : \A k \in q : k <= j] = "S"}
RECURSIVE Want(_)
Want(i) == IF i > Len(file) THEN << >> ELSE (IF i \in Marked /\ file[i] # "d" THEN (IF file[i] = "l" THEN <<"l", "l">> ELSE <<file[i]>>) ELSE << >>) \o Want(i + 1)
Exactly == End(s).st = "ok" => Count("S") = Count("E") /\ s.out = Want(1)
\* an error never runs later blocks
Stops == s.st # "ok" => End(s) = s
Out == Emit => PrintT("H|" \o ToJson(file))
=============================================================================
