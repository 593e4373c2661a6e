----------------------------- MODULE DiagOutMC ------------------------------
(* A run that puts out at steps of its choice, possibly started again, with   *)
(* files named with or without the time.                                      *)
EXTENDS DiagOut, TLC
CONSTANTS NSteps, Starts
VARIABLES nn, starts, named, plain, hist
vars == <<nn, starts, named, plain, hist>>
Init == nn = 0 /\ starts = 1 /\ named = [t \in 0..NSteps |-> << >>] /\ plain = << >> /\ hist = << >>
Out == /\ \A i \in 1..Len(hist) : hist[i] # <<starts, nn>>
       /\ named' = [named EXCEPT ![nn] = After(@, nn = 0, <<nn>>)]
       /\ plain' = After(plain, nn = 0, <<nn>>) /\ hist' = Append(hist, <<starts, nn>>) /\ UNCHANGED <<nn, starts>>
Step == nn < NSteps /\ nn' = nn + 1 /\ UNCHANGED <<starts, named, plain, hist>>
Again == starts < Starts /\ starts' = starts + 1 /\ nn' = 0 /\ UNCHANGED <<named, plain, hist>>
Spec == Init /\ [][Out \/ Step \/ Again]_vars
\* what a run that puts out its first step leaves behind is exactly its own output, in order
Mine == LET o == SelectSeq(hist, LAMBDA h : h[1] = starts) IN Len(o) > 0 /\ o[1][2] = 0 => plain = [i \in 1..Len(o) |-> o[i][2]]
\* nothing of an output is lost before the next start
Kept == \A i \in 1..Len(hist) : hist[i][1] = starts => \E k \in 1..Len(named[hist[i][2]]) : named[hist[i][2]][k] = hist[i][2]
=============================================================================
