------------------------------- MODULE Inline -------------------------------
(* Scripts inside a text file (bin/nrpyinline.py).  A file is a sequence of   *)
(* lines:  S start marker, E end marker, t prose, n prose that mentions a     *)
(* marker, a/b statements recording themselves, l a loop recording "l" twice, *)
(* d defines a name, u uses it, x fails.  Blocks run in order as they end, in *)
(* one namespace; prose inside a block is no Python, so nothing of that block *)
(* runs.  The first error ends the run.                                       *)
EXTENDS Integers, Sequences
Kinds == {"S", "E", "t", "n", "a", "b", "l", "d", "u", "x"}
Prose == {"t", "n"}
S0 == [cap |-> FALSE, blk |-> << >>, out |-> << >>, def |-> FALSE, st |-> "ok"]
Effect(s, k) ==
  IF s.st # "ok" THEN s
  ELSE CASE k \in {"a", "b"} -> [s EXCEPT !.out = Append(@, k)]
         [] k = "l" -> [s EXCEPT !.out = @ \o <<"l", "l">>]
         [] k = "d" -> [s EXCEPT !.def = TRUE]
         [] k = "u" -> IF s.def THEN [s EXCEPT !.out = Append(@, "u")] ELSE [s EXCEPT !.st = "name"]
         [] OTHER -> [s EXCEPT !.st = "fail"]
RECURSIVE Exec(_, _)
Exec(s, b) == IF b = << >> THEN s ELSE Exec(Effect(s, b[1]), Tail(b))
Block(s) == IF \E i \in 1..Len(s.blk) : s.blk[i] \in Prose THEN [s EXCEPT !.st = "syntax"]
            ELSE LET r == Exec(s, s.blk) IN IF r.st = "ok" THEN [r EXCEPT !.cap = FALSE, !.blk = << >>] ELSE r
Line(s, k) ==
  IF s.st # "ok" THEN s
  ELSE CASE k = "S" -> IF s.cap THEN [s EXCEPT !.st = "nested"] ELSE [s EXCEPT !.cap = TRUE, !.blk = << >>]
         [] k = "E" -> IF s.cap THEN Block(s) ELSE [s EXCEPT !.st = "stray"]
         [] s.cap -> [s EXCEPT !.blk = Append(@, k)]
         [] OTHER -> s
End(s) == IF s.st = "ok" /\ s.cap THEN [s EXCEPT !.st = "unclosed"] ELSE s
RECURSIVE Run(_, _)
Run(s, f) == IF f = << >> THEN End(s) ELSE Run(Line(s, f[1]), Tail(f))
=============================================================================
