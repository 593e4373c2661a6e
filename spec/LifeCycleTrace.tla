--------------------------- MODULE LifeCycleTrace ---------------------------
(* Recorded runs of generated programs.  One line =                          *)
(*  cfg: [ng, parser, late, hooks, regrid, lib]                              *)
(*  events: << [op, g, below, first, nn, tok, dig] >>                        *)
(*  first: first grid set-up; tok: time = t_0 + (nn - nn_0) dt; dig: digest  *)
(*  of all evolved data; ref: digest of the reference run at nn (or "")      *)
(*  nn0: iteration the run starts from (restart), rc, live: at exit          *)
(*  grids: << [coord, want, n, tot, num, den, base, half, dev, lim, gp] >>   *)
(*  dterr: deviation of dt from CFL * (smallest proper spacing), tolerances  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
L == INSTANCE LifeCycle WITH NG <- 1, TFinal <- 0, Dt <- 1, MaxLen <- 0, Emit <- FALSE, Bug <- "none", cfg <- 0, st <- 0, ev <- 0, live <- 0
Range(s) == {s[i] : i \in 1..Len(s)}
\* resolution: scaled by the convergence factor, except across a symmetry axis (2 points)
Pts(b, num, den) == IF b = 2 THEN 2 ELSE (b * num) \div den
BadGrid(g, k, ngh) ==
  LET at == "grid " \o ToString(k) \o ": " IN
  IF g.coord # g.want THEN at \o "is " \o g.coord \o ", asked for " \o g.want
  ELSE IF \E d \in 1..3 : g.n[d] # Pts(g.base[d], g.num, g.den) THEN at \o "has " \o ToString(g.n) \o " points, base " \o ToString(g.base)
  ELSE IF \E d \in 1..3 : g.tot[d] # g.n[d] + 2 * ngh THEN at \o "total size " \o ToString(g.tot)
  ELSE IF \E d \in 1..3 : Len(g.half[d]) # g.tot[d] \/ \E j \in 1..Len(g.half[d]) : g.half[d][j] # 2 * (j - 1 - ngh) + 1 THEN at \o "points are not cell centres"
  ELSE IF g.dev > 1 THEN at \o "points deviate from cell centres"
  ELSE IF g.lim > 1 THEN at \o "extent deviates by " \o ToString(g.lim) \o " tolerances"
  ELSE IF g.gp # g.gpwant THEN at \o "parameter is " \o ToString(g.gp) \o " instead of its default " \o ToString(g.gpwant)
  ELSE ""
Hooks(t) == Range(t.cfg.hooks)
Cfg(t) == [ng |-> t.cfg.ng, parser |-> t.cfg.parser, late |-> t.cfg.late, hooks |-> Hooks(t), regrid |-> t.cfg.regrid, lib |-> t.cfg.lib]
RECURSIVE Walk(_, _, _)
Walk(t, s, i) ==
  IF i > Len(t.events) THEN (IF s.f THEN "" ELSE "the program ended without finishing the run")
  ELSE LET e == t.events[i]
           at == "event " \o ToString(i) \o " " \o e.op \o ": " IN
       IF ~L!Can(Cfg(t), s, e) THEN at \o "not allowed here (steps taken " \o ToString(s.n) \o ", position " \o s.at \o (IF e.below THEN ", time below t_final)" ELSE ", t_final reached)")
       ELSE IF e.op \in {"pre", "diag", "prestep", "step", "poststep", "exit"} /\ e.nn # t.nn0 + s.n
            THEN at \o "iteration counter is " \o ToString(e.nn) \o " after " \o ToString(s.n) \o " steps from " \o ToString(t.nn0)
       ELSE IF e.op \in {"pre", "diag", "prestep", "step", "poststep", "exit"} /\ ~e.tok THEN at \o "time is not t_0 + (nn - nn_0) dt"
       ELSE IF e.op = "diag" /\ e.ref # "" /\ e.dig # e.ref THEN at \o "state differs from the reference run at iteration " \o ToString(e.nn)
       ELSE Walk(t, L!Do(Cfg(t), s, e), i + 1)
Judge(t) ==
  LET gs == {k \in 1..Len(t.grids) : BadGrid(t.grids[k], k, t.ngh) # ""}
      w == Walk(t, L!Start, 1) IN
  IF w # "" THEN w
  ELSE IF Len(t.grids) # t.cfg.ng THEN "number of grids " \o ToString(Len(t.grids))
  ELSE IF gs # {} THEN LET k == CHOOSE x \in gs : TRUE IN BadGrid(t.grids[k], k, t.ngh)
  ELSE IF t.dterr > 1 THEN "dt deviates from CFL times the smallest spacing by " \o ToString(t.dterr) \o " tolerances"
  ELSE IF t.rc # 0 THEN "exit status " \o ToString(t.rc)
  ELSE IF t.live # 0 THEN ToString(t.live) \o " allocations were never released"
  ELSE ""
Init == l = 0 /\ bad = {}
Next == /\ l < Len(Trace) /\ l' = l + 1
        /\ LET w == Judge(Trace[l']) IN
           bad' = IF w = "" THEN bad ELSE bad \cup (IF PrintT("BAD|" \o ToString(l') \o "|" \o w) THEN {l'} ELSE {})
Conforms == TRUE
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
