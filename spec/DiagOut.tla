------------------------------ MODULE DiagOut -------------------------------
(* Diagnostic output.  Each output adds rows to a file named after what is    *)
(* put out and, for slices, the time; the first step starts the file anew.    *)
(* Which points a slice has is specified in module Loops.                     *)
EXTENDS Loops
\* targets of the grid centre, per direction; All where the direction does not matter
CentreT(fam) == CASE fam = "Cartesian" -> <<Half, Half, Half>> [] fam = "Cylindrical" -> <<First, All, Half>> [] fam = "SymTP" -> <<First, Half, All>> [] OTHER -> <<First, All, All>>
InDir(T, N, j) == IF T = All THEN j \in 0..(N - 1) ELSE \E k \in 1..Len(T) : j \in Nearest(N, T[k])
\* p is <<i2, i1, i0>> without ghost zones
IsCentre(fam, N, p) == \A d \in 1..3 : InDir(CentreT(fam)[d], N[d], p[4 - d])
\* one output: the file's rows afterwards
After(rows, first, new) == IF first THEN new ELSE rows \o new
RECURSIVE Content(_)
\* outs: sequence of [first, rows] to the same file
Content(outs) == IF outs = << >> THEN << >> ELSE After(Content(SubSeq(outs, 1, Len(outs) - 1)), outs[Len(outs)].first, outs[Len(outs)].rows)
=============================================================================
