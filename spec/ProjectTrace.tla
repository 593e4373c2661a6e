---------------------------- MODULE ProjectTrace ----------------------------
EXTENDS Project, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
Rng(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE Walk(_, _, _)
Walk(reg, h, i) ==      \* <<"", reg>> or <<clause, reg>>
  IF i > Len(h) THEN <<"", reg>>
  ELSE LET c == h[i].c  new == Register(reg, c) IN
    IF h[i].ok # Accepts(reg, c) THEN <<"registration " \o ToString(i) \o " of " \o Actual(c) \o (IF h[i].ok THEN " accepted" ELSE " rejected"), reg>>
    ELSE IF Rng(h[i].names) # DOMAIN new \/ Len(h[i].names) # Cardinality(DOMAIN new)
         THEN <<"registry after registration " \o ToString(i), reg>>
    ELSE IF \E e \in Rng(h[i].vals) : e[2] # new[e[1]].val
         THEN <<"registration " \o ToString(i) \o " changed another function", reg>>
    ELSE Walk(new, h, i + 1)
Out(reg, o) ==
  LET S == Symbols(reg, o.prefix) IN
  IF o.ok # (NeedsMain(reg, o.lib)) THEN "project output " \o (IF o.ok THEN "accepted" ELSE "rejected: " \o o.why)
  ELSE IF ~o.ok THEN ""
  ELSE IF Rng(o.files) # Files(reg, o.prefix, o.ext) THEN "set of source files"
  ELSE IF Len(o.files) # Cardinality(DOMAIN reg) THEN "number of source files"
  ELSE IF {d[1] : d \in Rng(o.defs)} # S \/ Len(o.defs) # Cardinality(S) THEN "functions defined by the source files"
  ELSE IF \E d \in Rng(o.defs) : d[2].file # d[1] \o "." \o o.ext THEN "function defined in another function's file"
  ELSE IF {p[1] : p \in Rng(o.protos)} # S THEN "functions declared in the prototype header"
  ELSE IF Len(o.protos) # Cardinality(S) THEN "function declared more than once"
  ELSE IF \E z \in Rng(o.sigs) : ~z[2] THEN "declared signature differs from the defined one"
  ELSE IF Rng(o.objs) # Rng(o.files) \/ Len(o.objs) # Len(o.files) THEN "source files compiled by the build recipe"
  ELSE IF ~o.built THEN "the build recipe fails: " \o o.why
  ELSE IF \E e \in Rng(o.ran) : \E n \in DOMAIN reg : (o.prefix \o n) = e[1] /\ e[2] # reg[n].val THEN "a function computes another function's value"
  ELSE IF o.run /\ {e[1] : e \in Rng(o.ran)} # (S \ {"main"}) THEN "functions reachable in the executable"
  ELSE ""
Judge(t) == LET w == Walk(Empty, t.h, 1) IN
  IF w[1] # "" THEN w[1] ELSE IF t.outp = <<>> THEN "" ELSE Out(w[2], t.outp[1])
Init == l = 0 /\ bad = {}
Next == /\ l < Len(Trace) /\ l' = l + 1
        /\ LET w == Judge(Trace[l']) IN
           bad' = IF w = "" THEN bad ELSE bad \cup (IF PrintT("BAD|" \o ToString(l') \o "|" \o w) THEN {l'} ELSE {})
Conforms == TRUE
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
