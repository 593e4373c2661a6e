----------------------------- MODULE GridTrace ------------------------------
EXTENDS Grid, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
Rng(s) == {s[i] : i \in 1..Len(s)}
Obs(s) == [x \in {s.reg[i][1] : i \in 1..Len(s.reg)} |-> s.reg[CHOOSE i \in 1..Len(s.reg) : s.reg[i][1] = x][2]]
RECURSIVE Walk(_, _, _, _)
Walk(infra, reg, h, i) ==
  IF i > Len(h) THEN <<"", reg>>
  ELSE LET a == Apply(infra, reg, h[i].q) IN
    IF h[i].ok # a.ok THEN <<"request " \o ToString(i) \o (IF h[i].ok THEN " accepted" ELSE " rejected"), reg>>
    ELSE IF Obs(h[i]) # a.reg THEN <<"registry after request " \o ToString(i), reg>>
    ELSE Walk(infra, a.reg, h, i + 1)
Tables(reg, o) ==   \* recorded from the compiled index macros and tables
  LET code == [x \in DOMAIN reg |-> o.codes[CHOOSE i \in 1..Len(o.codes) : o.codes[i][1] = x][2]] IN
  IF \E g \in {"EVOL", "AUX", "AUXEVOL"} : o.counts[g] # Cardinality(InGroup(reg, g)) THEN "number of grid functions in a group"
  ELSE IF {m[1] : m \in Rng(o.macros)} # DOMAIN reg THEN "set of index macros"
  ELSE IF \E m \in Rng(o.macros) : m[2] # Index(reg, code, m[1]) THEN "index macro " \o (CHOOSE m \in Rng(o.macros) : m[2] # Index(reg, code, m[1]))[1]
  ELSE IF \E e \in Rng(o.evol) : reg[e[1]].finf # e[2] \/ reg[e[1]].ws # e[3] THEN "outer value / wave speed table"
  ELSE IF o.parok /\ \E p \in Rng(o.parity) : p[2] # Parity(reg, code, p[1]) THEN "parity type of " \o (CHOOSE p \in Rng(o.parity) : p[2] # Parity(reg, code, p[1]))[1]
  ELSE IF o.parok # (\A x \in DOMAIN reg : Parity(reg, code, x) # -1) THEN "parity types " \o (IF o.parok THEN "accepted" ELSE "rejected")
  ELSE ""
Judge(t) == LET w == Walk(t.infra, <<>>, t.h, 1) IN
  IF w[1] # "" THEN w[1] ELSE IF t.tab = <<>> THEN "" ELSE Tables(w[2], t.tab[1])
Init == l = 0 /\ bad = {}
Next == /\ l < Len(Trace) /\ l' = l + 1
        /\ LET w == Judge(Trace[l']) IN
           bad' = IF w = "" THEN bad ELSE bad \cup (IF PrintT("BAD|" \o ToString(l') \o "|" \o w) THEN {l'} ELSE {})
Conforms == TRUE
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
