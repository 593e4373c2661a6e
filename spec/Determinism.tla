----------------------------- MODULE Determinism -----------------------------
(* Code generation as a function of the request alone.  The environment may   *)
(* choose: the hash seed of each interpreter, which requests were generated   *)
(* before in the same interpreter (in-process memo tables), what the on-disk  *)
(* cache holds, and whether a batch is generated serially or by worker        *)
(* processes that each start from the parent's state.  None of it may reach   *)
(* the output.  Leak selects an implementation in which one of them does.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Req, Seeds, MaxLen, Emit, Leak
VARIABLES seed, hist, disk, pool, log, script
vars == <<seed, hist, disk, pool, log, script>>
None == 0
\* what an implementation with the given leak would produce
Out(r, md) == <<r, CASE Leak = "none"    -> <<>>
                     [] Leak = "hash"    -> <<seed>>
                     [] Leak = "history" -> <<hist # {}>>
                     [] Leak = "disk"    -> <<disk \ {r} # {}>>
                     [] Leak = "mode"    -> <<md>>>>
Init == seed = (CHOOSE s \in Seeds : TRUE) /\ hist = {} /\ disk = {} /\ pool = FALSE /\ log = {} /\ script = <<>>
Push(e) == script' = Append(script, e)
Restart(s) == /\ hist # {} /\ seed' = s /\ hist' = {} /\ pool' = FALSE /\ UNCHANGED <<disk, log>> /\ Push([op |-> "restart", seed |-> s])
Wipe == /\ disk # {} /\ disk' = {} /\ UNCHANGED <<seed, hist, pool, log>> /\ Push([op |-> "wipe"])
\* a batch of distinct requests, generated one after another or by workers
Generate(b, md) ==
  /\ (md = "parallel" => ~pool) /\ pool' = (pool \/ md = "parallel")      \* workers are started once per interpreter
  /\ log' = log \cup {Out(b[i], md) : i \in 1..Len(b)}
  /\ hist' = hist \cup {b[i] : i \in 1..Len(b)} /\ disk' = disk \cup {b[i] : i \in 1..Len(b)} /\ UNCHANGED seed
  /\ Push([op |-> "gen", reqs |-> b, mode |-> md])
Batches == {<<r>> : r \in Req} \cup ({<<r, q>> : r \in Req, q \in Req} \ {<<r, r>> : r \in Req})
Next == /\ Len(script) < MaxLen
        /\ \/ \E s \in Seeds : Restart(s)
           \/ Wipe
           \/ \E b \in Batches, md \in {"serial", "parallel"} : Generate(b, md)
Spec == Init /\ [][Next]_vars
Deterministic == \A x \in log, y \in log : x[1] = y[1] => x = y
View == IF Emit THEN script ELSE <<seed, hist, disk, pool, log, Len(script)>>
Emitted == Emit /\ Len(script) = MaxLen => PrintT("H|" \o ToJson(script))
=============================================================================
