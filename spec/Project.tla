------------------------------ MODULE Project ------------------------------
(* The C-function registry and the project written from it.                  *)
(* A registration request: [name, sub, coord, bad, val, sig]; bad names what *)
(* is wrong with it ("" if nothing).  val is the number its body returns.    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Actual(c) == IF c.coord = "" THEN c.name ELSE c.name \o "__rfm__" \o c.coord
\* path of a subdirectory as a normalised list of folders
Folder(c) == IF c.coord = "" THEN c.dirs ELSE Append(c.dirs, c.coord)
Empty == <<>>            \* registry: function from names to requests
Accepts(reg, c) == c.bad = "" /\ Actual(c) \notin DOMAIN reg
Register(reg, c) == IF Accepts(reg, c) THEN (Actual(c) :> c) @@ reg ELSE reg
\* what a project written from reg must contain (prefix: library prefix)
FileOf(reg, n, pre, ext) == [dirs |-> Folder(reg[n]), file |-> pre \o n \o "." \o ext]
Files(reg, pre, ext) == {FileOf(reg, n, pre, ext) : n \in DOMAIN reg}
Symbols(reg, pre) == {pre \o n : n \in DOMAIN reg}
NeedsMain(reg, lib) == lib \/ "main" \in DOMAIN reg
=============================================================================
