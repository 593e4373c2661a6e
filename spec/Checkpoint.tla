---------------------------- MODULE Checkpoint ------------------------------
(* Checkpoint files of a run that may be killed (or hit a full disk) before  *)
(* any file-system call, and is then restarted.                              *)
(*   disk : name -> << version, chunks written >> or None                    *)
(*   Discipline "replace": write N chunks to a private file, rename it.      *)
(*   "inplace" (truncate the checkpoint and refill it) and "lenient" (a      *)
(*   reader that accepts incomplete files) are negative controls.            *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS N, MaxV, Discipline, Emit, MaxLen
None == <<0, 0>>
VARIABLES disk, pc, ver, k, done, acc, hist
vars == <<disk, pc, ver, k, done, acc, hist>>
\* acc: versions a restart may legally find; done: writes that returned success
Target == IF Discipline = "replace" THEN "tmp" ELSE "final"
Init == /\ disk = [f \in {"final", "tmp"} |-> None]
        /\ pc = "run" /\ ver = 0 /\ k = 0 /\ done = 0 /\ acc = {0} /\ hist = <<>>
Complete(c) == c # None /\ c[2] = N
\* what a restart finds: 0 = starts from initial data, -1 is impossible to accept
Restart == IF disk["final"] = None THEN 0
           ELSE IF Complete(disk["final"]) \/ Discipline = "lenient" THEN disk["final"][1]
           ELSE MaxV + 1                                     \* refused: run cannot continue
\* state a restart would hold: whole version or a mixture
Mixed == Discipline = "lenient" /\ disk["final"] # None /\ ~Complete(disk["final"])
At == CASE pc = "open" -> 0 [] pc = "fill" -> 1 + k [] pc = "rename" -> N + 2 [] OTHER -> N + 3
Begin == /\ pc = "run" /\ ver < MaxV /\ ver' = ver + 1 /\ pc' = "open" /\ acc' = acc \cup {ver + 1}
         /\ UNCHANGED <<disk, k, done, hist>>
Open  == /\ pc = "open" /\ disk' = [disk EXCEPT ![Target] = <<ver, 0>>] /\ k' = 0 /\ pc' = "fill"
         /\ UNCHANGED <<ver, done, acc, hist>>
Chunk == /\ pc = "fill" /\ k < N /\ k' = k + 1 /\ disk' = [disk EXCEPT ![Target] = <<ver, k + 1>>]
         /\ UNCHANGED <<pc, ver, done, acc, hist>>
Close == /\ pc = "fill" /\ k = N /\ pc' = (IF Discipline = "replace" THEN "rename" ELSE "end")
         /\ UNCHANGED <<disk, ver, k, done, acc, hist>>
Rename == /\ pc = "rename" /\ disk' = [final |-> disk["tmp"], tmp |-> None] /\ pc' = "end"
          /\ UNCHANGED <<ver, k, done, acc, hist>>
End   == /\ pc = "end" /\ pc' = "run" /\ done' = ver /\ acc' = {ver} /\ hist' = Append(hist, [op |-> "done", at |-> 0])
         /\ UNCHANGED <<disk, ver, k>>
\* an I/O error: the private file is dropped and the run goes on
Fault == /\ pc \in {"open", "fill", "rename"} /\ Discipline = "replace" /\ pc' = "run"
         /\ disk' = [disk EXCEPT !["tmp"] = None] /\ hist' = Append(hist, [op |-> "fault", at |-> At])
         /\ UNCHANGED <<ver, k, done, acc>>
Crash == /\ pc # "run" /\ pc' = "run" /\ hist' = Append(hist, [op |-> "kill", at |-> At])
         /\ UNCHANGED <<disk, ver, k, done, acc>>
Next == /\ Len(hist) < MaxLen
        /\ (Begin \/ Open \/ Chunk \/ Close \/ Rename \/ End \/ Fault \/ Crash)
        /\ (Emit /\ pc' = "run" => PrintT("H|" \o ToJson(hist')))
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
\* a restart at ANY moment finds the last completed checkpoint or a newer complete one
Restartable == Restart <= MaxV /\ Restart >= done /\ Restart \in acc
NeverMixed == ~Mixed
View == <<disk, pc, ver, k, done, acc, Len(hist)>>
-----------------------------------------------------------------------------
\* write cadence, in integer units of a time quantum: write when the nearest
\* multiple of `every` is closer than half a step; ties are left open
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Nearest(t, every) == LET m == t \div every IN
   IF 2 * (t - m * every) < every THEN {m * every}
   ELSE IF 2 * (t - m * every) > every THEN {(m + 1) * every} ELSE {m * every, (m + 1) * every}
Due(t, dt, every) == LET d == {2 * Abs(m - t) : m \in Nearest(t, every)} IN
   IF \A x \in d : x < dt THEN "yes" ELSE IF \A x \in d : x > dt THEN "no" ELSE "either"
\* the cadence follows the interval: no window of one interval plus a step is without a due step
CadenceOK == \A every \in 1..12, dt \in 1..12 : dt <= every =>
   \A j \in 0..4 : \E n \in 0..60 : LET t == n * dt IN 2 * Abs(t - j * every) <= dt /\ Due(t, dt, every) # "no"
ASSUME CadenceOK
=============================================================================
