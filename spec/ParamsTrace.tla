---------------------------- MODULE ParamsTrace -----------------------------
(* Each trace line: a history of public calls with results and projections   *)
(* of the registries after each call, recorded from the implementation.      *)
EXTENDS Params, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad

ObsPar(o) == [k \in {o[i][1] : i \in 1..Len(o)} |->
                LET r == o[CHOOSE i \in 1..Len(o) : o[i][1] = k][2] IN r]
RECURSIVE Walk(_, _, _)
\* first disagreement: <<step, clause>>, or <<0, "">>
Walk(st, h, i) ==
  IF i > Len(h) THEN <<0, "">>
  ELSE LET a == Apply(st, h[i].op) IN
       IF h[i].ok # a.res.ok THEN <<i, "outcome of " \o h[i].op.op>>
       ELSE IF ToString(h[i].val) # ToString(a.res.val) THEN <<i, "result of " \o h[i].op.op>>
       ELSE IF ObsPar(h[i].par) # a.st.par THEN <<i, "parameter registry after " \o h[i].op.op>>
       ELSE IF ObsPar(h[i].cp) # a.st.cp THEN <<i, "code parameter registry after " \o h[i].op.op>>
       ELSE Walk(a.st, h, i + 1)

Init == l = 0 /\ bad = {}
Next == /\ l < Len(Trace)
        /\ l' = l + 1
        /\ LET w == Walk(InitState, Trace[l'].h, 1) IN
           bad' = IF w[1] = 0 THEN bad
                  ELSE bad \cup (IF PrintT("BAD|" \o ToString(l') \o "|step " \o ToString(w[1]) \o ": " \o w[2])
                                 THEN {l'} ELSE {})
Conforms == TRUE
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
