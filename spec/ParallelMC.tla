----------------------------- MODULE ParallelMC -----------------------------
\* Workers take tasks from a queue, run them on their own copy of the registries
\* and publish the whole copy; the parent merges.  Design = "delta" merges what
\* changed; "snapshot" merges everything in completion order (control).
EXTENDS Parallel, Json
CONSTANTS NT, NW, Design, Emit
Base == [p |-> "0", q |-> "0"]
W(m, k, v) == [mode |-> m, k |-> k, v |-> v]
Menu == {<<W("reg", "f1", "1")>>, <<W("set", "p", "1")>>, <<W("app", "q", "1")>>,
         <<W("set", "p", "1"), W("set", "p", "0")>>, <<W("reg", "f2", "2"), W("reg", "c", "3")>>, <<W("reg", "c", "3")>>}
VARIABLES tasks, next, wk, ws, snaps
vars == <<tasks, next, wk, ws, snaps>>
Workers == 1..NW
Init == /\ tasks \in {t \in [1..NT -> Menu] : Independent(Base, t)}
        /\ next = 1 /\ wk = [w \in Workers |-> Base] /\ ws = [w \in Workers |-> 0] /\ snaps = <<>>
Start(w) == /\ ws[w] = 0 /\ next <= NT
            /\ ws' = [ws EXCEPT ![w] = next] /\ next' = next + 1 /\ UNCHANGED <<tasks, wk, snaps>>
Finish(w) == /\ ws[w] # 0
             /\ wk' = [wk EXCEPT ![w] = After(@, tasks[ws[w]])]
             /\ snaps' = Append(snaps, [t |-> ws[w], w |-> w, env |-> wk'[w]])
             /\ ws' = [ws EXCEPT ![w] = 0] /\ UNCHANGED <<tasks, next>>
             /\ IF Emit /\ Len(snaps') = NT
                THEN PrintT("S|" \o ToJson([tasks |-> tasks, order |-> [i \in 1..NT |-> snaps'[i].t], nw |-> NW])) ELSE TRUE
Next == \E w \in Workers : Start(w) \/ Finish(w)
Spec == Init /\ [][Next]_vars
RECURSIVE Fold(_, _)
Fold(env, i) == IF i > Len(snaps) THEN env
                ELSE Fold(IF Design = "delta" THEN MergeDelta(Base, env, snaps[i].env) ELSE MergeAll(env, snaps[i].env), i + 1)
SameAsSerial == Len(snaps) = NT => Fold(Base, 1) = Serial(Base, tasks)
OnceEach == Cardinality({snaps[i].t : i \in 1..Len(snaps)}) = Len(snaps)
=============================================================================
