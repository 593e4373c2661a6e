---------------------------- MODULE StructsTrace ----------------------------
(* One generated project: [params, only, lanes, members |-> struct -> <<[m,  *)
(* t, n]>>, defs |-> <<struct values after set_to_default, per instance>>,   *)
(* cur |-> values then stored, seen |-> <<[h, g, v |-> <<[x, v]>>]>>].       *)
EXTENDS Structs, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
CType(p) == CASE p.ty = "REAL" -> "double" [] p.ty = "bool" -> "_Bool" [] OTHER -> p.ty
Has(t, p, s) == Cardinality({i \in 1..Len(t.members[s]) : t.members[s][i].m = p.name})
JudgeParam(t, i) ==
  LET p == t.params[i]   so == StructOf(p)   q == "parameter " \o p.name \o ": " IN
  IF Has(t, p, "commondata") # (IF so = "commondata" THEN 1 ELSE 0) THEN q \o "membership in the common struct is wrong"
  ELSE IF Has(t, p, "params") # (IF so = "params" THEN 1 ELSE 0) THEN q \o "membership in the per-grid struct is wrong"
  ELSE IF so = "none" THEN IF t.macro[i] = p.def THEN "" ELSE q \o "macro value is wrong"
  ELSE IF ~(\E k \in 1..Len(t.members[so]) : LET m == t.members[so][k] IN m.m = p.name /\ m.t = CType(p) /\ m.n = p.n) THEN q \o "declared with another type"
  ELSE IF p.dset /\ ~(\A g \in 1..Len(t.defs[i]) : t.defs[i][g] = Fill(p, p.def))
       THEN q \o "default is " \o ToString(t.defs[i]) \o " instead of " \o ToString(Fill(p, p.def))
  ELSE LET B == {k \in 1..Len(t.seen[i]) : LET s == t.seen[i][k] IN s.v # Lanes(p, s.h, t.lanes, t.cur[i][IF p.common THEN 1 ELSE s.g])} IN
       IF B # {} THEN q \o "read as " \o ToString(t.seen[i][CHOOSE k \in B : TRUE])
       ELSE IF {t.seen[i][k].h : k \in 1..Len(t.seen[i])} # {h \in {"ptr", "nop", "simd"} : Visible(p, h, t.only)} THEN q \o "visible in the wrong headers"
       ELSE ""
RECURSIVE First(_, _)
First(t, i) == IF i > Len(t.params) THEN "" ELSE LET w == JudgeParam(t, i) IN IF w # "" THEN w ELSE First(t, i + 1)
Init == l = 0 /\ bad = {}
Next == /\ l < Len(Trace) /\ l' = l + 1
        /\ LET w == First(Trace[l'], 1) IN
           bad' = IF w = "" THEN bad ELSE bad \cup (IF PrintT("BAD|" \o ToString(l') \o "|" \o w) THEN {l'} ELSE {})
Conforms == TRUE
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
