-------------------------- MODULE CheckpointTrace ---------------------------
(* Histories of the real write_checkpoint()/read_checkpoint().  One line =   *)
(*  [steps : << [op, v, end, t, dt, every, got, same, call] >>]              *)
(*  op "write": version v was written by a process that ended "done", "kill" *)
(*  or "fault"; got = what a restarted run finds: "fresh", a version,        *)
(*  "refused" or "wrong"; same = the writer left its own state unchanged     *)
(*  op "damage": the file was shortened, extended or belongs to other grids  *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
C == INSTANCE Checkpoint WITH N <- 1, MaxV <- 1, Discipline <- "replace", Emit <- FALSE, MaxLen <- 0,
       disk <- 0, pc <- 0, ver <- 0, k <- 0, done <- 0, acc <- 0, hist <- 0
Allowed(cur, s) ==
  CASE s.op = "damage" -> {"refused", "fresh"}
    [] s.end = "done" -> (CASE C!Due(s.t, s.dt, s.every) = "yes" -> {s.v}
                            [] C!Due(s.t, s.dt, s.every) = "no" -> {cur} [] OTHER -> {cur, s.v})
    [] OTHER -> {cur, s.v}
RECURSIVE Walk(_, _, _)
Walk(t, cur, i) ==
  IF i > Len(t.steps) THEN ""
  ELSE LET s == t.steps[i] IN
    IF s.got \notin Allowed(cur, s) THEN
       "step " \o ToString(i) \o " (" \o s.op \o " " \o s.v \o " " \o s.end \o " at " \o s.call \o "): restart finds " \o s.got
       \o " instead of " \o ToString(Allowed(cur, s))
    ELSE IF ~s.same THEN "step " \o ToString(i) \o ": writing changed the running state"
    ELSE Walk(t, IF s.op = "damage" THEN "fresh" ELSE s.got, i + 1)
Judge(t) == Walk(t, "fresh", 1)
Init == l = 0 /\ bad = {}
Next == /\ l < Len(Trace) /\ l' = l + 1
        /\ LET w == Judge(Trace[l']) IN
           bad' = IF w = "" THEN bad ELSE bad \cup (IF PrintT("BAD|" \o ToString(l') \o "|" \o w) THEN {l'} ELSE {})
Conforms == TRUE
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
