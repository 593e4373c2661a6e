----------------------------- MODULE ThornTrace -----------------------------
(* Generated thorns.  One line =                                             *)
(*  gfs: << [n, group, dim, idx, finf, speed] >>, funs: << [n, thorn, bins, pars] >>, *)
(*  pars: << [n, type, val] >>  registered;                                  *)
(*  thorns: << [name, evol, variant,                                         *)
(*     decl: << [group, n, par, known] >>  variables declared (in order),    *)
(*     pccl: << [n, type, val] >>, sched: << [f, bin, k] >> k = entry tag,   *)
(*     srcs: << file >>, files: << file >>, same: sources as registered,     *)
(*     err: "" or why generation failed,                                     *)
(*     calls: << [fn, n, a, b] >> what the generated set-up code does >>     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
T == INSTANCE Thorn WITH Thorns <- {}, Names <- {}, Bins <- {}, Pars <- {}, MaxReg <- 0, Emit <- FALSE, Bug <- "none", gfs <- 0, funs <- 0, out <- 0, hist <- 0
Range(s) == {s[i] : i \in 1..Len(s)}
F(t) == [n \in {t.funs[i].n : i \in 1..Len(t.funs)} |-> LET f == CHOOSE f \in Range(t.funs) : f.n = n IN [thorn |-> f.thorn, bins |-> f.bins, pars |-> Range(f.pars)]]
G(t) == [n \in {t.gfs[i].n : i \in 1..Len(t.gfs)} |-> CHOOSE g \in Range(t.gfs) : g.n = n]
Count(s, P(_)) == Cardinality({i \in 1..Len(s) : P(s[i])})
GroupName == [EVOL |-> "evol_variables", AUX |-> "aux_variables", AUXEVOL |-> "auxevol_variables"]
\* << variable, group >> pairs an evolution thorn must declare
Want(t) == {<<n \o "GF", GroupName[G(t)[n].group]>> : n \in {n \in DOMAIN G(t) : G(t)[n].group \in DOMAIN GroupName}}
           \cup {<<n \o "_rhsGF", "evol_variables_rhs">> : n \in T!Members(G(t), "EVOL")}
BadThorn(t, h) ==
  LET D == {<<h.decl[i].n, h.decl[i].group>> : i \in 1..Len(h.decl)}
      W == Want(t)
      FF == F(t)
      S == T!Sched(FF, h.name)
      own == T!Params(FF, h.name)
      parbad == {i \in 1..Len(h.decl) : h.variant = "CarpetX" /\ h.decl[i].group # "evol_variables_rhs" /\
                   \A n \in DOMAIN G(t) : n \o "GF" = h.decl[i].n => T!Parity(G(t)[n].dim, G(t)[n].idx) # h.decl[i].par}
      at == h.variant \o " thorn " \o h.name \o ": " IN
  IF h.err # "" THEN at \o h.err
  ELSE IF Len(h.decl) # Cardinality(D) THEN at \o "a variable is declared twice"
  ELSE IF h.evol /\ D # W THEN at \o "declared variables differ from the registered ones: missing " \o ToString(W \ D) \o " extra " \o ToString(D \ W)
  ELSE IF ~h.evol /\ ~(D \subseteq {w \in W : w[2] \in {"aux_variables", "auxevol_variables"}}) THEN at \o "declares " \o ToString(D)
  ELSE IF parbad # {} THEN LET i == CHOOSE i \in parbad : TRUE IN at \o h.decl[i].n \o " declared with parities " \o ToString(h.decl[i].par)
  ELSE IF Len(h.pccl) # Cardinality(own) \/ {h.pccl[i].n : i \in 1..Len(h.pccl)} # own THEN at \o "parameters declared " \o ToString([i \in 1..Len(h.pccl) |-> h.pccl[i].n]) \o " instead of " \o ToString(own)
  ELSE IF \E i \in 1..Len(h.pccl) : h.pccl[i] \notin Range(t.pars) THEN at \o "a parameter has the wrong type or default " \o ToString(h.pccl)
  ELSE IF Range(h.reported) # own THEN at \o "reports parameters " \o ToString(h.reported)
  ELSE IF Len(h.sched) # Cardinality(S) + Len(h.extra) \/ {<<h.sched[i].f, h.sched[i].k, h.sched[i].bin>> : i \in 1..Len(h.sched)} # S \cup {<<h.extra[i][1], 0, h.extra[i][2]>> : i \in 1..Len(h.extra)}
       THEN at \o "schedule is " \o ToString([i \in 1..Len(h.sched) |-> <<h.sched[i].f, h.sched[i].k, h.sched[i].bin>>]) \o " instead of " \o ToString(S)
  ELSE IF ~h.storage THEN at \o "storage declarations are missing"
  ELSE IF Len(h.srcs) # Cardinality(T!Sources(FF, h.name)) \/ Range(h.srcs) # T!Sources(FF, h.name) THEN at \o "build file lists " \o ToString(h.srcs)
  ELSE IF ~(Range(h.srcs) \subseteq Range(h.files)) THEN at \o "a listed source does not exist"
  ELSE IF ~h.same THEN at \o "a source file does not hold the registered function"
  ELSE ""
\* calls made by the generated set-up functions of evolution thorn h
Ev(t) == T!Members(G(t), "EVOL")
Ax(t) == T!Members(G(t), "AUX")
Names3(t) == {n \in DOMAIN G(t) : G(t)[n].group \in {"EVOL", "AUX", "AUXEVOL"}}
V(h, n) == h.name \o "::" \o n \o "GF"
WantCalls(t, h) ==
  {<<"zero", n, "all", "">> : n \in Ev(t)}
  \cup {<<"newrad", n, G(t)[n].finf, G(t)[n].speed>> : n \in Ev(t)}
  \cup (IF h.variant = "CarpetX" THEN {} ELSE
      {<<"mol", h.name \o "::evol_variables", h.name \o "::evol_variables_rhs", "">>}
      \cup {<<"driver", V(h, n), "none", "1">> : n \in Ev(t)} \cup {<<"boundary", V(h, n), "none", "1">> : n \in Ev(t)}
      \cup {<<"driver", V(h, n), "flat", h.bw>> : n \in Ax(t)} \cup {<<"boundary", V(h, n), "flat", h.bw>> : n \in Ax(t)}
      \cup {<<"sym", V(h, n), ToString(T!Parity(G(t)[n].dim, G(t)[n].idx)), "">> : n \in Names3(t)})
BadCalls(t, h) ==
  LET C == {<<h.calls[i].fn, h.calls[i].n, h.calls[i].a, h.calls[i].b>> : i \in 1..Len(h.calls)}
      W == WantCalls(t, h) IN
  IF h.callerr # "" THEN h.variant \o " thorn " \o h.name \o ": " \o h.callerr
  ELSE IF ~h.ran \/ (C = W /\ Len(h.calls) = Cardinality(C)) THEN ""
  ELSE h.variant \o " thorn " \o h.name \o ": set-up code misses " \o ToString(W \ C) \o " adds " \o ToString(C \ W) \o (IF Len(h.calls) # Cardinality(C) THEN " repeats a call" ELSE "")
Judge(t) ==
  LET b == {i \in 1..Len(t.thorns) : BadThorn(t, t.thorns[i]) # ""}
      c == {i \in 1..Len(t.thorns) : BadCalls(t, t.thorns[i]) # ""} IN
  IF b # {} THEN BadThorn(t, t.thorns[CHOOSE i \in b : TRUE])
  ELSE IF c # {} THEN BadCalls(t, t.thorns[CHOOSE i \in c : TRUE])
  ELSE IF \E i \in 1..Len(t.reads) : t.reads[i].got # t.reads[i].want THEN LET r == CHOOSE r \in Range(t.reads) : r.got # r.want IN "generated code reads " \o r.n \o " as " \o r.got \o " instead of " \o r.want
  ELSE ""
Init == l = 0 /\ bad = {}
Next == /\ l < Len(Trace) /\ l' = l + 1
        /\ LET w == Judge(Trace[l']) IN
           bad' = IF w = "" THEN bad ELSE bad \cup (IF PrintT("BAD|" \o ToString(l') \o "|" \o w) THEN {l'} ELSE {})
Conforms == TRUE
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
