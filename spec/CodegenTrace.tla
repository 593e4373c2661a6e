---------------------------- MODULE CodegenTrace ----------------------------
(* [items, pts |-> <<[env, undef, order, got]>>]: outputs of compiled code.  *)
EXTENDS Codegen, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
Judge(t) ==
  LET n == Len(SelectSeq(t.items, LAMBDA x : x.to = 0))
      D == {k \in 1..Len(t.pts) : ~t.pts[k].undef} IN
  IF t.pts # <<>> /\ D = {} THEN "code is undefined where the expressions are defined"
  ELSE LET O == {k \in D : t.pts[k].order # [i \in 1..n |-> i]}
           B == {k \in D : t.pts[k].got # Run(t.items, 1, t.pts[k].env)} IN
  IF O # {} THEN "outputs are not each assigned once in the given order: " \o ToString(t.pts[CHOOSE k \in O : TRUE].order)
  ELSE IF B # {} THEN LET k == CHOOSE k \in B : TRUE   e == Run(t.items, 1, t.pts[k].env) IN
       "output " \o ToString(CHOOSE i \in 1..n : e[i] # t.pts[k].got[i]) \o " differs from its expression"
  ELSE ""
Init == l = 0 /\ bad = {}
Next == /\ l < Len(Trace) /\ l' = l + 1
        /\ LET w == Judge(Trace[l']) IN
           bad' = IF w = "" THEN bad ELSE bad \cup (IF PrintT("BAD|" \o ToString(l') \o "|" \o w) THEN {l'} ELSE {})
Conforms == TRUE
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
