------------------------------- MODULE Structs ------------------------------
(* Where a registered run-time parameter lives in the generated project and  *)
(* which value each generated access path sees.                              *)
(*   parameter: [ty |-> "REAL"|"int"|"bool"|"char"|"define"|other C type,    *)
(*               n |-> 0 scalar, else array length / buffer size,            *)
(*               common, hdr, file |-> BOOLEAN, dset |-> BOOLEAN]            *)
EXTENDS Naturals, Sequences, FiniteSets
IsArray(p) == p.n > 0
\* registrations the registry accepts
Legal(p) ==
  /\ (p.ty \in {"REAL", "int"} /\ IsArray(p)) => p.common /\ ~p.hdr
  /\ (p.file /\ p.ty # "define") => p.dset
StructOf(p) == IF p.ty = "define" THEN "none" ELSE IF p.common THEN "commondata" ELSE "params"
\* headers: pointer, by-value, vector; `only` restricts to common parameters
Visible(p, h, only) ==
  /\ p.hdr /\ p.ty # "define" /\ ~(only /\ ~p.common)
  /\ h = "simd" => p.ty # "char" /\ ~IsArray(p)
\* value is a sequence of canonical elements; a scalar default fills every
\* element of a numeric array
Fill(p, v) == IF p.ty # "char" /\ IsArray(p) THEN [i \in 1..p.n |-> v[1]] ELSE v
Lanes(p, h, w, v) == IF h = "simd" /\ p.ty = "REAL" THEN [i \in 1..w |-> v[1]] ELSE v
=============================================================================
