------------------------------ MODULE SimdTrace -----------------------------
(* [isa, w |-> width, ops |-> <<[op, args (per lane), got (per lane)]>>,     *)
(*  mem |-> <<[k, m, v, after, back]>>, sums |-> <<[v, got]>>,               *)
(*  fun |-> <<[f, vec, ref]>>]                                               *)
EXTENDS Simd, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
Judge(t) ==
  LET B == {j \in 1..Len(t.ops) : LET o == t.ops[j] IN Len(o.args) # t.w \/ o.got # Vector(o.op, o.args)}
      M == {j \in 1..Len(t.mem) : LET o == t.mem[j] IN o.after # Store(o.m, o.k, o.v) \/ o.back # Load(o.m, o.k, t.w)}
      S == {j \in 1..Len(t.sums) : t.sums[j].got # Horiz(t.sums[j].v)}
      F == {j \in 1..Len(t.fun) : t.fun[j].vec # t.fun[j].ref}
  IN IF t.w # t.lanes THEN "simd_width is not the number of lanes"
     ELSE IF B # {} THEN LET o == t.ops[CHOOSE j \in B : TRUE] IN t.isa \o ": " \o o.op \o " on " \o ToString(o.args) \o " gives " \o ToString(o.got)
     ELSE IF M # {} THEN t.isa \o ": load or store differs from element-wise access"
     ELSE IF S # {} THEN t.isa \o ": horizontal sum is wrong"
     ELSE IF F # {} THEN t.isa \o ": " \o t.fun[CHOOSE j \in F : TRUE].f \o " differs from the scalar function"
     ELSE ""
Init == l = 0 /\ bad = {}
Next == /\ l < Len(Trace) /\ l' = l + 1
        /\ LET w == Judge(Trace[l']) IN
           bad' = IF w = "" THEN bad ELSE bad \cup (IF PrintT("BAD|" \o ToString(l') \o "|" \o w) THEN {l'} ELSE {})
Conforms == TRUE
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
