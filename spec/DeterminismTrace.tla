-------------------------- MODULE DeterminismTrace ---------------------------
(* One line = one generation: [req, env, files: << [n, d] >>] (file or        *)
(* function name and digest of its bytes).  The first generation of a request *)
(* defines its output; every later one, whatever its environment, must agree. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad, table
Files(t) == {<<t.files[i].n, t.files[i].d>> : i \in 1..Len(t.files)}
Known(r) == r \in DOMAIN table
Names(S) == {x[1] : x \in S}
Bad(t) == IF t.err # "" THEN t.req \o " in " \o t.env \o ": " \o t.err
          ELSE IF Len(t.files) = 0 THEN t.req \o " in " \o t.env \o " generates nothing"
          ELSE IF ~Known(t.req) \/ table[t.req] = Files(t) THEN ""
          ELSE t.req \o " in " \o t.env \o " differs in " \o ToString(Names((table[t.req] \ Files(t)) \cup (Files(t) \ table[t.req])))
Init == l = 0 /\ bad = 0 /\ table = <<>>
Next == /\ l < Len(Trace) /\ l' = l + 1
        /\ LET t == Trace[l + 1] IN
           /\ table' = IF Known(t.req) \/ t.err # "" THEN table ELSE (t.req :> Files(t)) @@ table
           /\ IF Bad(t) = "" THEN bad' = bad ELSE PrintT("BAD|" \o ToString(l + 1) \o "|" \o Bad(t)) /\ bad' = bad + 1
Conforms == TRUE
TraceAccepted == TLCGet("stats").diameter >= Len(Trace)
=============================================================================
