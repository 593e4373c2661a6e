-------------------------------- MODULE Grid --------------------------------
(* The grid-function registry.  reg : name -> attributes.                    *)
(* A registration request (kind "list" or "tensor"):                         *)
(*  list   [names, base(s checked), group, dim, rank, finf, ws]              *)
(*  tensor [base, rank, sy, symok, group, dim, finf, ws]                     *)
EXTENDS Tensor
Groups(infra) == {"EVOL", "AUX", "AUXEVOL"} \cup
   (IF infra = "CarpetX" THEN {"EXTERNAL", "CORE", "TILE_TMP", "SCALAR_TMP"} ELSE {})
NameOK(n) == ~n.empty /\ ~n.digit           \* attributes of the spelling
Legal(infra, q, n) == /\ infra \in {"BHaH", "ETLegacy", "CarpetX"}
                      /\ q.group \in Groups(infra)
                      /\ (q.isbase => NameOK(n))
At(x, i) == IF Len(x) = 1 THEN x[1] ELSE x[i]
Attr(q, i) == [group |-> q.group, rank |-> q.rank, dim |-> q.dim, finf |-> At(q.finf, i), ws |-> At(q.ws, i)]
RECURSIVE AddAll(_, _, _, _)
\* names are taken in order until the first illegal one
AddAll(infra, reg, q, i) ==
  IF i > Len(q.names) THEN [reg |-> reg, ok |-> TRUE]
  ELSE LET n == q.names[i] IN
    IF n.s \in DOMAIN reg THEN AddAll(infra, reg, q, i + 1)
    ELSE IF ~Legal(infra, q, n) THEN [reg |-> reg, ok |-> FALSE]
    ELSE AddAll(infra, (n.s :> Attr(q, i)) @@ reg, q, i + 1)
\* tensors: one entry per independent component (order immaterial)
Tensor(infra, reg, q) ==
  LET C == {Name(q.base, t) : t \in Independent(q.sy, q.rank, q.dim)}
      new == C \ DOMAIN reg
  IN IF ~(q.symok /\ q.rank \in 1..4) THEN [reg |-> reg, ok |-> FALSE]
     ELSE IF new # {} /\ (infra \notin {"BHaH", "ETLegacy", "CarpetX"} \/ q.group \notin Groups(infra)) THEN [reg |-> reg, ok |-> FALSE]
     ELSE [reg |-> [n \in new |-> [group |-> q.group, rank |-> q.rank, dim |-> q.dim, finf |-> q.finf[1], ws |-> q.ws[1]]] @@ reg, ok |-> TRUE]
Apply(infra, reg, q) == IF q.kind = "list" THEN AddAll(infra, reg, q, 1) ELSE Tensor(infra, reg, q)
-----------------------------------------------------------------------------
\* numbering: codes[n] is the spelling as lower-case character codes
RECURSIVE Before(_, _, _)
Before(a, b, i) == IF i > Len(a) THEN i <= Len(b)
                   ELSE IF i > Len(b) THEN FALSE
                   ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE Before(a, b, i + 1)
InGroup(reg, g) == {n \in DOMAIN reg : reg[n].group = g}
Index(reg, codes, n) == Cardinality({m \in InGroup(reg, reg[n].group) : Before(codes[m], codes[n], 1)})
Digit(c) == c - 48
\* parity type of a component from its trailing index digits
Tri(a, b) == LET lo == IF a < b THEN a ELSE b  hi == IF a < b THEN b ELSE a IN
             CASE lo = 0 -> 4 + hi [] lo = 1 -> 6 + hi [] lo = 2 -> 9
Parity(reg, codes, n) ==
  LET c == codes[n]  r == reg[n].rank  d == reg[n].dim
      i == Digit(c[Len(c)])  j == IF Len(c) > 1 THEN Digit(c[Len(c) - 1]) ELSE 0 IN
  CASE r = 0 -> 0
    [] r = 1 -> IF d = 4 THEN i ELSE i + 1
    [] r = 2 /\ d = 3 -> Tri(j, i)
    [] r = 2 /\ d = 4 -> IF i = 0 /\ j = 0 THEN 0 ELSE IF i = 0 THEN j ELSE IF j = 0 THEN i ELSE Tri(j - 1, i - 1)
    [] OTHER -> -1
=============================================================================
