---------------------------- MODULE InlineTrace -----------------------------
(* One line per file run: f: its lines, out: what its scripts recorded, st:   *)
(* how the run ended, style: how it was written down.                         *)
EXTENDS Inline, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
Class(st) == IF st \in {"nested", "stray", "unclosed"} THEN "marker" ELSE st
Why(t) == LET r == Run(S0, t.f) IN
  IF t.st # Class(r.st) THEN "ends with " \o t.st \o " instead of " \o r.st
  ELSE IF t.out # r.out THEN "scripts recorded " \o ToString(t.out) \o " instead of " \o ToString(r.out) ELSE ""
Init == l = 0 /\ bad = 0
Next == /\ l < Len(Trace) /\ l' = l + 1
        /\ LET t == Trace[l + 1] IN
           LET w == Why(t) IN IF w = "" THEN bad' = bad ELSE PrintT("BAD|" \o ToString(l + 1) \o "|file " \o ToString(t.f) \o " written as " \o t.style \o ": " \o w) /\ bad' = bad + 1
Conforms == TRUE
TraceAccepted == TLCGet("stats").diameter >= Len(Trace)
=============================================================================
