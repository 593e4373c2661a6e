--------------------------- MODULE ParallelTrace ---------------------------
EXTENDS Parallel, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
AsMap(s) == [k \in {s[i][1] : i \in 1..Len(s)} |-> s[CHOOSE i \in 1..Len(s) : s[i][1] = k][2]]
Rng(s) == {s[i] : i \in 1..Len(s)}
\* Worker transition system over the recorded events: a process runs one task at a time.
RECURSIVE Walk(_, _, _, _)
Walk(ev, i, busy, done) ==
  IF i > Len(ev) THEN IF DOMAIN busy # {} THEN <<"a task was started and never ended", done>> ELSE <<"", done>>
  ELSE LET e == ev[i] IN
    IF e.k = "start" THEN
      IF e.t \in done \/ \E p \in DOMAIN busy : busy[p] = e.t THEN <<"task " \o ToString(e.t) \o " ran more than once", done>>
      ELSE IF e.pid \in DOMAIN busy THEN <<"a worker ran two tasks at once", done>>
      ELSE Walk(ev, i + 1, busy @@ (e.pid :> e.t), done)
    ELSE IF e.pid \notin DOMAIN busy \/ busy[e.pid] # e.t THEN <<"task ended that was not running", done>>
    ELSE Walk(ev, i + 1, [p \in DOMAIN busy \ {e.pid} |-> busy[p]], done \cup {e.t})
FirstDiff(a, b) == LET D == {k \in DOMAIN a \cup DOMAIN b : k \notin DOMAIN a \/ k \notin DOMAIN b \/ a[k] # b[k]} IN CHOOSE k \in D : TRUE
Judge(t) ==
  LET base == AsMap(t.base)  got == AsMap(t.final)
      w == Walk(t.ev, 1, <<>>, {})
      want == Serial(base, t.tasks) IN
  IF ~Independent(base, t.tasks) THEN "HARNESS: dependent tasks"
  ELSE IF t.fail # <<>> THEN IF t.raised THEN "" ELSE "a failing task was not reported"
  ELSE IF t.raised THEN "rejected although no task fails: " \o t.why
  ELSE IF w[1] # "" THEN w[1]
  ELSE IF w[2] # 1..Len(t.tasks) THEN "a deferred task never ran"
  ELSE IF got # want THEN "entry " \o FirstDiff(got, want) \o " differs from running the tasks one after the other"
  ELSE IF t.regs # t.serialregs THEN "registries differ in detail from those of a serial run: " \o FirstDiff(AsMap(t.regs), AsMap(t.serialregs))
  ELSE ""
Init == l = 0 /\ bad = {}
Next == /\ l < Len(Trace) /\ l' = l + 1
        /\ LET w == Judge(Trace[l']) IN
           bad' = IF w = "" THEN bad ELSE bad \cup (IF PrintT("BAD|" \o ToString(l') \o "|" \o w) THEN {l'} ELSE {})
Conforms == TRUE
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
