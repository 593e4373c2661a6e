----------------------------- MODULE LifeCycle ------------------------------
(* Life cycle of a generated program.  The order of events is a partial      *)
(* order: each event has a guard on what has already happened, nothing else  *)
(* is prescribed (allocation of y_n and other storage may interleave, hooks  *)
(* that were not asked for do not exist).                                    *)
(*  st: c parameters defaulted, p parameter file/command line read, g grids  *)
(*  set up, y/z sets of grids whose evolved/other storage exists, i initial  *)
(*  data set, h post-allocation hook run, n steps taken, at: position inside *)
(*  the loop body, f final release, rg: a regrid is under way                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NG, TFinal, Dt, MaxLen, Emit, Bug
VARIABLES cfg, st, ev, live
vars == <<cfg, st, ev, live>>
HookSet == {"post", "pre", "prestep", "poststep"}
Start == [c |-> FALSE, p |-> FALSE, g |-> FALSE, y |-> {}, z |-> {}, i |-> FALSE, h |-> FALSE, n |-> 0, at |-> "top", f |-> FALSE, rg |-> FALSE]
Grids(c) == 0..(c.ng - 1)
Ready(c, s) == /\ s.i /\ s.y = Grids(c) /\ s.z = Grids(c) /\ ("post" \in c.hooks => s.h) /\ ~s.f /\ ~s.rg
\* guard of event e = [op, g, below]; below: time < t_final when it happens
Can(c, s, e) ==
  CASE e.op = "common" -> ~s.c
    [] e.op = "parse"  -> c.parser /\ s.c /\ ~s.p /\ ~s.g
    [] e.op = "grids"  -> s.c /\ (c.parser => s.p) /\ ~s.g /\ e.first = ~s.rg
    [] e.op = "yn"     -> s.g /\ e.g \in Grids(c) \ s.y /\ (~s.i \/ s.rg)
    [] e.op = "nyn"    -> s.g /\ e.g \in Grids(c) \ s.z /\ (s.at = "top" \/ s.rg)
    [] e.op = "init"   -> s.g /\ ~s.i /\ s.y = Grids(c) /\ (c.late => s.z = Grids(c)) /\ (~c.late => s.z = {})
    [] e.op = "post"   -> "post" \in c.hooks /\ ~s.h /\ s.i /\ s.z = Grids(c) /\ s.at = "top" /\ s.n = 0
    [] e.op = "pre"    -> "pre" \in c.hooks /\ Ready(c, s) /\ s.at = "top" /\ e.below
    [] e.op = "regrid" -> c.regrid /\ s.at = "pre" /\ ~s.rg
    [] e.op = "regridded" -> s.rg /\ s.y = Grids(c) /\ s.z = Grids(c)
    [] e.op = "diag"   -> Ready(c, s) /\ s.at = (IF "pre" \in c.hooks THEN "pre" ELSE "top") /\ e.below
    [] e.op = "prestep" -> "prestep" \in c.hooks /\ Ready(c, s) /\ s.at = "diag"
    [] e.op = "step"   -> Ready(c, s) /\ s.at = (IF "prestep" \in c.hooks THEN "prestep" ELSE "diag") /\ e.below
    [] e.op = "poststep" -> "poststep" \in c.hooks /\ s.at = "step"
    [] e.op = "resume" -> c.lib /\ Ready(c, s) /\ s.at = "top"
    [] e.op = "exit"   -> Ready(c, s) /\ s.at = "top" /\ ~e.below
    [] OTHER -> FALSE
Do(c, s, e) ==
  CASE e.op = "common" -> [s EXCEPT !.c = TRUE]
    [] e.op = "parse"  -> [s EXCEPT !.p = TRUE]
    [] e.op = "grids"  -> [s EXCEPT !.g = TRUE]
    [] e.op = "yn"     -> [s EXCEPT !.y = s.y \cup {e.g}]
    [] e.op = "nyn"    -> [s EXCEPT !.z = s.z \cup {e.g}]
    [] e.op = "init"   -> [s EXCEPT !.i = TRUE]
    [] e.op = "post"   -> [s EXCEPT !.h = TRUE]
    [] e.op = "pre"    -> [s EXCEPT !.at = "pre"]
    [] e.op = "regrid" -> [s EXCEPT !.rg = TRUE, !.g = FALSE, !.y = {}, !.z = {}]
    [] e.op = "regridded" -> [s EXCEPT !.rg = FALSE]
    [] e.op = "diag"   -> [s EXCEPT !.at = "diag"]
    [] e.op = "prestep" -> [s EXCEPT !.at = "prestep"]
    [] e.op = "step"   -> [s EXCEPT !.n = s.n + 1, !.at = IF "poststep" \in c.hooks THEN "step" ELSE "top"]
    [] e.op = "poststep" -> [s EXCEPT !.at = "top"]
    [] e.op = "exit"   -> [s EXCEPT !.f = TRUE]
    [] OTHER -> s
----------------------------------------------------------------------------
Ops == {"common", "parse", "grids", "yn", "nyn", "init", "post", "pre", "regrid", "regridded", "diag", "prestep", "step", "poststep", "exit"}
Below(s) == IF Bug = "le" THEN s.n * Dt <= TFinal ELSE s.n * Dt < TFinal
\* abstract allocation count: 1 struct array, per grid 3 coordinate arrays, y_n, other
Cost(e) == CASE e.op = "grids" -> 3 * NG [] e.op = "yn" -> 1 [] e.op = "nyn" -> 1
             [] e.op = "regrid" -> -(5 * NG) [] e.op = "exit" -> IF Bug = "leak" THEN -(4 * NG) ELSE -(5 * NG) [] OTHER -> 0
Init == /\ cfg \in [ng : {NG}, parser : BOOLEAN, late : BOOLEAN, hooks : SUBSET HookSet, regrid : BOOLEAN, lib : {FALSE}]
        /\ st = Start /\ ev = <<>> /\ live = 0
Next == \E op \in Ops, g \in 0..(NG - 1) :
          LET e == [op |-> op, g |-> g, below |-> Below(st), first |-> ~st.rg] IN
          /\ (op \notin {"yn", "nyn"} => g = 0)
          /\ Can(cfg, st, e)
          /\ st' = Do(cfg, st, e) /\ live' = live + Cost(e)
          /\ ev' = IF Len(ev) < MaxLen THEN Append(ev, op) ELSE ev
          /\ UNCHANGED cfg
          /\ (Emit /\ op = "exit" => PrintT("H|" \o ToJson([cfg |-> [parser |-> cfg.parser, late |-> cfg.late, hooks |-> cfg.hooks, regrid |-> cfg.regrid], n |-> st.n])))
Spec == Init /\ [][Next]_vars
View == <<cfg, st, live>>
\* the run ends exactly at the first step boundary whose time is not below t_final
Stops == st.f => /\ st.n * Dt >= TFinal /\ (st.n = 0 \/ (st.n - 1) * Dt < TFinal)
Balanced == st.f => live = 0
NothingEarly == /\ (st.i => (st.g \/ st.rg) /\ st.c /\ (cfg.parser => st.p)) /\ (st.n > 0 => st.i /\ (st.z = Grids(cfg) \/ st.rg))
                /\ ("post" \in cfg.hooks /\ st.n > 0 => st.h)
CanFinish == <>(st.f)
=============================================================================
