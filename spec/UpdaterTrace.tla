---------------------------- MODULE UpdaterTrace ----------------------------
EXTENDS Updater, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
\* observation: [core, full, touched]
Same(f, o) == o.full = f.full /\ ~o.touched
Matches(f, g, o) == IF g = f THEN Same(f, o) ELSE o.full = g.full /\ o.touched
Obs2File(f, o) == IF o.full = "ABSENT" THEN Absent ELSE [core |-> o.core, full |-> o.full, gen |-> f.gen + (IF o.touched THEN 1 ELSE 0)]
RECURSIVE Walk(_, _, _)
Walk(f, h, i) ==
  IF i > Len(h) THEN ""
  ELSE LET s == h[i]  u == s.u IN
    IF s.k = "upd"
    THEN IF s.outcome # Outcome(u) THEN "update " \o ToString(i) \o " (" \o u.how \o ") " \o s.outcome
         ELSE IF ~Matches(f, Target(f, u), s.obs)
              THEN "file after update " \o ToString(i) \o " (" \o u.how \o ")"
                   \o (IF s.obs.full = Target(f, u).full THEN ": touched although unchanged" ELSE ": wrong content")
         ELSE Walk(Target(f, u), h, i + 1)
    ELSE IF \E g \in During(f, u) : s.obs.full = g.full THEN Walk(Obs2File(f, s.obs), h, i + 1)
         ELSE "file after a kill during update " \o ToString(i) \o " is half-written"
Init == l = 0 /\ bad = {}
Next == /\ l < Len(Trace) /\ l' = l + 1
        /\ LET w == Walk(Absent, Trace[l'].h, 1) IN
           bad' = IF w = "" THEN bad ELSE bad \cup (IF PrintT("BAD|" \o ToString(l') \o "|" \o w) THEN {l'} ELSE {})
Conforms == TRUE
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
