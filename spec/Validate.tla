------------------------------ MODULE Validate ------------------------------
(* Expression validation against trusted values.                             *)
(* An expression is [c |-> semantic class, p |-> p, f |-> form]: expressions *)
(* of one class denote the same function, written in different forms; p > 0  *)
(* multiplies it by 1 + 10^-p; class "zero" is the zero function, "nan" has  *)
(* no value.  A dictionary is a sequence of entries                          *)
(* [n |-> name, list |-> BOOLEAN, e |-> expressions in index order].         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Digits == 24                   \* agreement demanded: 10^(-4/5 * 30), relative
Band == 2                      \* no verdict demanded this close to it
PMin(a, b) == IF a = 0 THEN b ELSE IF b = 0 THEN a ELSE IF a < b THEN a ELSE b
Same(a, b) == a.c = b.c /\ (a.c \in {"zero", "nan"} \/ a.p = b.p \/ PMin(a.p, b.p) >= Digits + Band)
Differ(a, b) == a.c # b.c \/ (a.c \notin {"zero", "nan"} /\ a.p # b.p /\ PMin(a.p, b.p) <= Digits - Band)

RECURSIVE Entries(_)
Entries(d) == IF d = << >> THEN {}
              ELSE LET h == Head(d) IN
                   (IF h.skip THEN {}
                    ELSE IF h.list THEN {<<<<h.n, j>>, h.e[j]>> : j \in 1..Len(h.e)}
                    ELSE {<<<<h.n, 0>>, h.e[1]>>}) \cup Entries(Tail(d))
Names(d) == {z[1] : z \in Entries(d)}
Val(d, n) == (CHOOSE z \in Entries(d) : z[1] = n)[2]
(* verdict the comparison must give: "yes", "no" or "either"                 *)
Verdict(d, t) ==
  IF Names(d) # Names(t) THEN "no"
  ELSE IF \E n \in Names(d) : Differ(Val(d, n), Val(t, n)) THEN "no"
  ELSE IF \A n \in Names(d) : Same(Val(d, n), Val(t, n)) THEN "yes" ELSE "either"
(* equality asserted between two dictionaries: a NaN equals nothing          *)
Asserted(d, t) == IF \E n \in Names(d) : Val(d, n).c = "nan" THEN "no" ELSE Verdict(d, t)
IsZero(a, b) ==                \* does a - b vanish?  p below 45 digits is seen
  IF a.c = "nan" \/ b.c = "nan" THEN "no" ELSE IF a.c = b.c /\ (a.c = "zero" \/ a.p = b.p) THEN "yes"
  ELSE IF a.c # b.c \/ PMin(a.p, b.p) <= 45 THEN "no" ELSE "either"

(* trusted files: base name -> dictionary or absent (<<>> stands for absent) *)
Result(store, b, d) == IF b \notin DOMAIN store THEN "generated" ELSE Verdict(d, store[b])
After(store, b, d) == IF b \notin DOMAIN store THEN [k \in DOMAIN store \cup {b} |-> IF k = b THEN d ELSE store[k]] ELSE store
=============================================================================
