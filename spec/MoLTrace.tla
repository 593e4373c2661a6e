------------------------------ MODULE MoLTrace ------------------------------
EXTENDS MoL, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad

\* one step: events; returns failing clause ("" = conforms)
RECURSIVE Step(_, _, _, _, _, _)
Step(tr, ev, i, t, st, pp) ==
  IF i > Len(ev) THEN "step ended without a final report"
  ELSE LET e == ev[i] IN
  CASE e.e = "rhs" ->
         LET s == st[e.g].done + 1 IN
         IF s > t.s THEN "too many right-hand-side evaluations"
         ELSE IF s > 1 /\ st[e.g].posts = 0 THEN "stage state used before post-stage operation (stage " \o ToString(s) \o ")"
         ELSE IF s > 1 /\ ~(\A g \in DOMAIN st : st[g].done >= s - 1) THEN "grids out of step"
         ELSE IF s > 1 /\ tr.pp /\ pp < s - 1 THEN "cross-grid post-stage operation skipped before stage " \o ToString(s)
         ELSE IF ~(\A k \in 1..Len(e.v) : VecClose(e.v[k], RowOf(t, s))) THEN "stage input differs from tableau at stage " \o ToString(s)
         ELSE IF ~e.gh THEN "stale ghost zones in stage input " \o ToString(s)
         ELSE IF ~Close(e.t, t.c[s], Tol) THEN "stage time differs from tableau at stage " \o ToString(s)
         ELSE IF ~e.na THEN "right-hand side reads and writes the same buffer"
         ELSE IF ~e.ax THEN "auxiliary storage not passed"
         ELSE Step(tr, ev, i + 1, t, [st EXCEPT ![e.g] = [done |-> s, posts |-> 0]], pp)
    [] e.e = "post" ->
         IF st[e.g].done = 0 THEN "post-stage operation before any evaluation"
         ELSE Step(tr, ev, i + 1, t, [st EXCEPT ![e.g].posts = @ + 1], pp)
    [] e.e = "postpost" ->
         IF ~(\E s \in 1..t.s : StageComplete(st, s)) THEN "cross-grid post-stage operation before all grids finished the stage"
         ELSE Step(tr, ev, i + 1, t, st, IF st[0].done > pp THEN st[0].done ELSE pp)
    [] e.e = "end" ->
         IF ~StageComplete(st, t.s) THEN "number of evaluations differs from tableau"
         ELSE IF tr.pp /\ pp < t.s THEN "cross-grid post-stage operation skipped at the end"
         ELSE IF ~(\A g \in 1..Len(e.y) : \A k \in 1..Len(e.y[g]) : VecClose(e.y[g][k], RowOf(t, t.s + 1)))
              THEN "new state differs from tableau"
         ELSE IF ~e.gh THEN "stale ghost zones in the new state"
         ELSE IF tr.timed /\ (e.dn # 1 \/ ~Close(e.dt, One, Tol)) THEN "time or step counter not advanced by one step"
         ELSE ""
    [] OTHER -> "unknown event"

RECURSIVE Steps(_, _)
Steps(tr, i) ==
  IF i > Len(tr.steps) THEN ""
  ELSE LET r == Step(tr, tr.steps[i], 1, Tab(tr.m), Start(tr.grids), 0) IN
       IF r # "" THEN "step " \o ToString(i) \o ": " \o r ELSE Steps(tr, i + 1)

Mem(tr) ==
  IF tr.mem.live # 0 THEN "buffers not released"
  ELSE IF tr.mem.badfree # 0 THEN "buffer released twice or never allocated"
  ELSE IF tr.mem.nullbuf # 0 THEN "buffer used but not allocated"
  ELSE IF tr.mem.diag # 0 THEN "diagnostic output buffer missing or aliasing the state"
  ELSE IF tr.mem.allocs < 2 * tr.grids THEN "no buffers allocated"
  ELSE ""

Verdict(tr) ==
  IF tr.m \notin Methods THEN ""         \* a method this specification does not know
  ELSE IF tr.crash # "" THEN tr.crash
  ELSE LET r == Steps(tr, 1) IN IF r # "" THEN r ELSE Mem(tr)

Init == l = 0 /\ bad = {}
Next == /\ l < Len(Trace)
        /\ l' = l + 1
        /\ LET v == Verdict(Trace[l']) IN
           bad' = IF v = "" THEN bad
                  ELSE bad \cup (IF PrintT("BAD|" \o ToString(l') \o "|" \o v) THEN {l'} ELSE {})
Conforms == TRUE
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
