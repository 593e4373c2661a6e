---------------------------- MODULE ParFileTrace ----------------------------
(* Runs of a generated executable: [proj, lex, files, argv, help, poison,    *)
(* out |-> [k |-> "set"|"reject"|"crash"|"help", v |-> values]].             *)
EXTENDS ParFile, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Projs == JsonDeserialize(IOEnv.PROJS)
VARIABLES l, bad
Judge(t) ==
  LET pr == Projs[t.proj]   o == t.out
      files == [i \in 1..Len(t.files) |-> [there |-> t.files[i].there, m |-> IF Usage(Len(pr.steer), t.argv).f = i THEN Meanings(pr.params, t.lex, t.files[i].lines) ELSE <<>>]]
      r == Resolve(pr.params, pr.steer, t.lex, files, t.argv) IN
  IF o.k = "crash" THEN "the program crashed or misused memory"
  ELSE IF t.help THEN IF o.k = "help" THEN "" ELSE "help was not printed"
  ELSE IF r.k = "any" THEN ""
  ELSE IF r.k = "reject" THEN IF o.k = "reject" THEN "" ELSE "malformed input accepted"
  ELSE IF o.k = "reject" THEN IF r.soft THEN "" ELSE "well-formed input rejected"
  ELSE IF o.k # "set" THEN "program did not run"
  ELSE IF o.v # r.v
       THEN LET p == CHOOSE p \in 1..Len(r.v) : o.v[p] # r.v[p] IN
            "parameter " \o pr.names[p] \o " resolved to " \o ToString(o.v[p]) \o " instead of " \o ToString(r.v[p])
  ELSE IF t.dflt /\ ~(\A p \in 1..Len(r.v) : r.v[p] = pr.params[p].def) THEN "default parameter file does not hold the defaults"
  ELSE IF t.dflt /\ ~(\A p \in 1..Len(r.v) : pr.params[p].file =>
            Cardinality({i \in 1..Len(t.files[1].lines) :
              LET m == files[1].m[i] IN m.k = "set" /\ m.p = p}) = 1)
       THEN "default parameter file does not list every parameter once"
  ELSE ""
Init == l = 0 /\ bad = {}
Next == /\ l < Len(Trace) /\ l' = l + 1
        /\ LET w == Judge(Trace[l']) IN
           bad' = IF w = "" THEN bad ELSE bad \cup (IF PrintT("BAD|" \o ToString(l') \o "|" \o w) THEN {l'} ELSE {})
Conforms == TRUE
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
