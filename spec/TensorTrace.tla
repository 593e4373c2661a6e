---------------------------- MODULE TensorTrace -----------------------------
EXTENDS Tensor, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
Rng(s) == {s[i] : i \in 1..Len(s)}
Decl(t) ==
  LET ok == t.rank \in 1..4 /\ t.wellformed /\ WellFormed(t.rank, t.sy) IN
  IF t.ok # ok THEN "declaration " \o (IF t.ok THEN "accepted" ELSE "rejected")
  ELSE IF ~ok THEN ""
  ELSE IF {c[1] : c \in Rng(t.comps)} # Tuples(t.rank, t.dim) \/ Len(t.comps) # Cardinality(Tuples(t.rank, t.dim)) THEN "shape"
  ELSE LET wrong == {c \in Rng(t.comps) : c[2] # (IF t.base = "" THEN "0" ELSE Shown(t.base, t.sy, c[1], t.nder, Rng(t.axes)))} IN
    IF wrong = {} THEN ""
    ELSE LET c == CHOOSE y \in wrong : TRUE IN "component " \o Digits(c[1], 1) \o " is " \o c[2]
Invert(t) ==
  LET d == Det(t.A, t.n) IN
  IF t.singular THEN (IF t.ok THEN "singular matrix accepted" ELSE "")
  ELSE IF ~t.ok THEN "regular matrix rejected"
  ELSE IF t.det # d THEN "determinant"
  ELSE IF ~IsInverse(t.A, t.B, t.n) THEN "inverse" ELSE ""
Eps(t) == \* t.comps : <<tuple, value>>, weight w with w * winv = 1
  IF \E c \in Rng(t.comps) : c[2] # M(Levi(c[1]) * t.w) THEN "permutation symbol " \o t.what
  ELSE IF {c[1] : c \in Rng(t.comps)} # Tuples(3, 3) THEN "shape of " \o t.what ELSE ""
Judge(t) == CASE t.k = "decl" -> Decl(t) [] t.k = "inv" -> Invert(t) [] t.k = "eps" -> Eps(t)
Init == l = 0 /\ bad = {}
Next == /\ l < Len(Trace) /\ l' = l + 1
        /\ LET w == Judge(Trace[l']) IN
           bad' = IF w = "" THEN bad ELSE bad \cup (IF PrintT("BAD|" \o ToString(l') \o "|" \o w) THEN {l'} ELSE {})
Conforms == TRUE
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
