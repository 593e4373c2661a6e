------------------------------- MODULE GpuMC --------------------------------
(* All orders of threads; all schedules of queued copies; emits histories.   *)
EXTENDS Gpu, TLC, Json
CONSTANTS MaxN, MaxT, GF, NS, MaxOps, Emit
VARIABLES mode, n, td, todo, cnt, host, dev, queue, hist, ok
vars == <<mode, n, td, todo, cnt, host, dev, queue, hist, ok>>
G == 1..GF
Init == \/ /\ mode = "launch" /\ n \in {<<a, b, 1>> : a, b \in 1..MaxN} /\ td \in {<<a, b, 1>> : a, b \in 1..MaxT}
           /\ todo = Box(Blocks(<< >>, n, td)) \X Box(td) /\ cnt = [p \in Box(n) |-> 0]
           /\ host = << >> /\ dev = << >> /\ queue = << >> /\ hist = << >> /\ ok = TRUE
        \/ /\ mode = "mem" /\ n = <<1, 1, 1>> /\ td = n /\ todo = {} /\ cnt = << >>
           /\ host = [g \in G |-> g] /\ dev = [g \in G |-> 10 + g] /\ queue = [s \in 0..NS - 1 |-> << >>] /\ hist = << >> /\ ok = TRUE
Thread == /\ mode = "launch" /\ \E q \in todo : LET p == Point(td, q[1], q[2]) IN
             /\ todo' = todo \ {q} /\ cnt' = IF InGrid(n, p) THEN [cnt EXCEPT ![<<p[1], p[2], p[3]>>] = @ + 1] ELSE cnt
          /\ UNCHANGED <<mode, n, td, host, dev, queue, hist, ok>>
Busy == {<<queue[s][k].to, queue[s][k].d>> : s \in {z \in 0..NS - 1 : queue[z] # << >>}, k \in {1}}
Idle == \A s \in 0..NS - 1 : queue[s] = << >>
Room == mode = "mem" /\ Len(hist) < MaxOps
Set == Room /\ Idle /\ \E where \in {"h", "d"}, g \in G : LET v == 20 + Len(hist) IN
       /\ hist' = Append(hist, [op |-> "set" \o where, h |-> g, g |-> g, v |-> v])
       /\ host' = IF where = "h" THEN [host EXCEPT ![g] = v] ELSE host
       /\ dev' = IF where = "d" THEN [dev EXCEPT ![g] = v] ELSE dev
       /\ UNCHANGED <<mode, n, td, todo, cnt, queue, ok>>
\* a copy of one grid function, queued on its stream, and later waited for
Copy == Room /\ Idle /\ \E to \in {"h", "d"}, h \in G, g \in G : LET s == g % NS IN
        /\ hist' = Append(hist, [op |-> IF to = "h" THEN "d2h" ELSE "h2d", h |-> h, g |-> g, v |-> 0])
        /\ queue' = [queue EXCEPT ![s] = Append(@, [to |-> to, d |-> IF to = "h" THEN h ELSE g, s |-> IF to = "h" THEN g ELSE h])]
        /\ UNCHANGED <<mode, n, td, todo, cnt, host, dev, ok>>
Progress == mode = "mem" /\ \E s \in 0..NS - 1 : queue[s] # << >> /\ LET c == Head(queue[s]) IN
            /\ host' = IF c.to = "h" THEN [host EXCEPT ![c.d] = dev[c.s]] ELSE host
            /\ dev' = IF c.to = "d" THEN [dev EXCEPT ![c.d] = host[c.s]] ELSE dev
            /\ queue' = [queue EXCEPT ![s] = Tail(@)]
            /\ ok' = (ok /\ (IF c.to = "h" THEN host'[c.d] = dev'[c.s] ELSE dev'[c.d] = host'[c.s]))
            /\ UNCHANGED <<mode, n, td, todo, cnt, hist>>
Spec == Init /\ [][Thread \/ Set \/ Copy \/ Progress]_vars
Once == \A p \in DOMAIN cnt : cnt[p] <= 1
Covered == mode = "launch" /\ todo = {} => \A p \in DOMAIN cnt : cnt[p] = 1
Arrives == ok
\* what the two sides hold is a function of the history alone, whatever the schedule
RECURSIVE Play(_, _)
Play(m, hs) == IF hs = << >> THEN m ELSE LET e == Head(hs) IN
  Play(CASE e.op = "seth" -> [m EXCEPT !.h[e.h] = e.v] [] e.op = "setd" -> [m EXCEPT !.d[e.g] = e.v]
         [] e.op = "d2h" -> [m EXCEPT !.h[e.h] = m.d[e.g]] [] OTHER -> [m EXCEPT !.d[e.g] = m.h[e.h]], Tail(hs))
Settled == mode = "mem" /\ Idle => Play([h |-> [g \in G |-> g], d |-> [g \in G |-> 10 + g]], hist) = [h |-> host, d |-> dev]
Out == Emit /\ mode = "mem" /\ Idle /\ Len(hist) = MaxOps => PrintT("H|" \o ToJson(hist))
=============================================================================
