------------------------------- MODULE Cache -------------------------------
(* On-disk result cache shared by several processes, any of which may be     *)
(* killed before any file-system call.  Fresh(k) is the value a fresh        *)
(* computation returns.  Discipline = "replace" is the design: a private     *)
(* complete copy is put in place in one step.  "inplace" (open the entry for *)
(* writing, then fill it) is kept as a negative control: TLC must refute it. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Procs, Keys, Discipline, Emit, MaxSteps
None == "none"
Torn == "torn"
Fresh(k) == "v" \o k
VARIABLES disk,      \* key -> what a reader of the entry would find
          pc, key,   \* per process: control point, key worked on
          res,       \* per process: value returned ("" while running)
          crashed, hist
vars == <<disk, pc, key, res, crashed, hist>>
View == <<disk, pc, key, res, crashed>>
Init == /\ disk = [k \in Keys |-> None]
        /\ pc = [p \in Procs |-> "lookup"]
        /\ key \in [Procs -> Keys]
        /\ res = [p \in Procs |-> ""]
        /\ crashed = {} /\ hist = <<>>
Live(p) == p \notin crashed
Go(p, a, b) == /\ Live(p) /\ pc[p] = a /\ pc' = [pc EXCEPT ![p] = b]
               /\ hist' = Append(hist, p) /\ UNCHANGED <<key, crashed>>
Lookup(p) == Go(p, "lookup", IF disk[key[p]] = None THEN "compute" ELSE "read") /\ UNCHANGED <<disk, res>>
Read(p)   == Go(p, "read", "done") /\ res' = [res EXCEPT ![p] = disk[key[p]]] /\ UNCHANGED disk
Compute(p) == /\ Go(p, "compute", IF Discipline = "replace" THEN "private" ELSE "open")
              /\ UNCHANGED <<disk, res>>
Private(p) == Go(p, "private", "publish") /\ UNCHANGED <<disk, res>>
Publish(p) == /\ Go(p, "publish", "done") /\ disk' = [disk EXCEPT ![key[p]] = Fresh(key[p])]
              /\ res' = [res EXCEPT ![p] = Fresh(key[p])]
OpenTrunc(p) == Go(p, "open", "fill") /\ disk' = [disk EXCEPT ![key[p]] = Torn] /\ UNCHANGED res
Fill(p)   == /\ Go(p, "fill", "done") /\ disk' = [disk EXCEPT ![key[p]] = Fresh(key[p])]
             /\ res' = [res EXCEPT ![p] = Fresh(key[p])]
Crash(p)  == /\ Live(p) /\ pc[p] # "done" /\ crashed' = crashed \cup {p}
             /\ hist' = Append(hist, "!" \o p) /\ UNCHANGED <<disk, pc, key, res>>
Step == \E p \in Procs : Lookup(p) \/ Read(p) \/ Compute(p) \/ Private(p) \/ Publish(p)
                         \/ OpenTrunc(p) \/ Fill(p) \/ Crash(p)
Next == Step /\ (Emit => PrintT("H|" \o ToJson([k |-> key, h |-> hist'])))
Spec == Init /\ [][Next]_vars /\ WF_vars(Step)
-----------------------------------------------------------------------------
NeverTorn == \A k \in Keys : disk[k] \in {None, Fresh(k)}
ResultsFresh == \A p \in Procs : res[p] \in {"", Fresh(key[p])}
KeysApart == \A j, k \in Keys : (j # k /\ disk[j] = disk[k]) => disk[j] = None
EntriesStay == [][\A k \in Keys : disk[k] # None => disk'[k] # None]_disk
Finishes == <>(\A p \in Procs : pc[p] = "done" \/ p \in crashed)
=============================================================================
