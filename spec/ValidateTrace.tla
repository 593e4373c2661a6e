---------------------------- MODULE ValidateTrace ---------------------------
(* [ops |-> <<[op, ...]>>], ops in order over one directory of trusted files *)
(*  validate [b, d, got], assert [d, t, got], zero [a, b, got], drop [b],    *)
(*  text [b, s, got]                                                         *)
EXTENDS Validate, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
Fits(got, want) == got = want \/ (want = "either" /\ got \in {"yes", "no"})
RECURSIVE Run(_, _, _)
Run(t, j, store) ==
  IF j > Len(t.ops) THEN ""
  ELSE LET o == t.ops[j]
           at == " (operation " \o ToString(j) \o ")" IN
    CASE o.op = "validate" ->
           IF ~Fits(o.got, Result(store, o.b, o.d)) THEN "validation says " \o o.got \o " instead of " \o Result(store, o.b, o.d) \o at
           ELSE Run(t, j + 1, After(store, o.b, o.d))
      [] o.op = "drop" -> Run(t, j + 1, [k \in DOMAIN store \ {o.b} |-> store[k]])
      [] o.op = "assert" -> IF ~Fits(o.got, Asserted(o.d, o.t)) THEN "equality asserted: " \o o.got \o " instead of " \o Asserted(o.d, o.t) \o at ELSE Run(t, j + 1, store)
      [] o.op = "zero" -> IF ~Fits(o.got, IsZero(o.x, o.y)) THEN "zero test says " \o o.got \o " instead of " \o IsZero(o.x, o.y) \o at ELSE Run(t, j + 1, store)
      [] o.op = "text" ->
           LET want == IF o.b \notin DOMAIN store THEN "generated" ELSE IF store[o.b] = o.s THEN "yes" ELSE "no" IN
           IF o.got # want THEN "text validation says " \o o.got \o " instead of " \o want \o at
           ELSE Run(t, j + 1, IF o.b \in DOMAIN store THEN store ELSE [k \in DOMAIN store \cup {o.b} |-> IF k = o.b THEN o.s ELSE store[k]])
Judge(t) == Run(t, 1, << >>)
Init == l = 0 /\ bad = {}
Next == /\ l < Len(Trace) /\ l' = l + 1
        /\ LET w == Judge(Trace[l']) IN
           bad' = IF w = "" THEN bad ELSE bad \cup (IF PrintT("BAD|" \o ToString(l') \o "|" \o w) THEN {l'} ELSE {})
Conforms == TRUE
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
