------------------------------- MODULE ParFile ------------------------------
(* How the generated executable resolves its run-time parameters: registered *)
(* default, then parameter file, then command line.  Text is a sequence of   *)
(* character codes.                                                          *)
(*   parameter: [nm |-> codes, kind |-> "int"|"REAL"|"bool"|"char",          *)
(*               size |-> 0 scalar | array length | buffer size (char),      *)
(*               szs |-> array length as text,                               *)
(*               file |-> BOOLEAN (settable in the file), def |-> value]     *)
(*   value:     [n |-> <<canonical numbers>>, c |-> <<codes of a string>>]   *)
(*   lexicon:   <<[t |-> codes, i |-> , r |-> , b |-> canonical or "no"/"?">>*)
(*              how C reads the token as int, REAL, bool ("?" unspecified).  *)
(* Resolve gives [k |-> "reject"], or [k |-> "any"] (unspecified) or         *)
(* [k |-> "set", v |-> values, soft |-> BOOLEAN]; soft: rejection is allowed.*)
EXTENDS Integers, Sequences, FiniteSets

Space == {9, 10, 11, 12, 13, 32}
QUOTE == 34    HASH == 35    BSL == 92    EQS == 61    LBR == 91    RBR == 93
LCU == 123     RCU == 125    COMMA == 44
Alnum(c) == c \in (48..57) \cup (65..90) \cup (97..122) \/ c = 95

Sub(s, a, b) == IF b < a THEN <<>> ELSE SubSeq(s, a, b)
RECURSIVE From(_, _, _)
From(s, c, i) == IF i > Len(s) THEN 0 ELSE IF s[i] = c THEN i ELSE From(s, c, i + 1)
Find(s, c) == From(s, c, 1)
RECURSIVE First(_, _), Last(_, _)
First(s, i) == IF i > Len(s) THEN i ELSE IF s[i] \notin Space THEN i ELSE First(s, i + 1)
Last(s, i) == IF i = 0 THEN 0 ELSE IF s[i] \notin Space THEN i ELSE Last(s, i - 1)
Trim(s) == Sub(s, First(s, 1), Last(s, Len(s)))

\* position of the first '#' outside a quoted string, or Len + 1
RECURSIVE Comment(_, _, _)
Comment(s, i, q) ==
  IF i > Len(s) THEN i
  ELSE IF q /\ s[i] = BSL /\ i < Len(s) /\ s[i+1] \in {QUOTE, BSL} THEN Comment(s, i + 2, q)
  ELSE IF s[i] = QUOTE THEN Comment(s, i + 1, ~q)
  ELSE IF s[i] = HASH /\ ~q THEN i
  ELSE Comment(s, i + 1, q)

RECURSIVE SplitFrom(_, _, _)
SplitFrom(s, c, i) == LET p == From(s, c, i) IN
  IF p = 0 THEN <<Sub(s, i, Len(s))>> ELSE <<Sub(s, i, p - 1)>> \o SplitFrom(s, c, p + 1)
SplitAt(s, c) == SplitFrom(s, c, 1)

\* contents of a quoted string; ok = FALSE if it is not one well-formed literal
RECURSIVE Unquote(_, _, _)
Unquote(s, i, acc) ==
  IF i > Len(s) THEN [ok |-> FALSE, v |-> acc]
  ELSE IF s[i] = QUOTE THEN [ok |-> i = Len(s), v |-> acc]
  ELSE IF s[i] = BSL /\ i < Len(s) /\ s[i+1] \in {QUOTE, BSL} THEN Unquote(s, i + 2, Append(acc, s[i+1]))
  ELSE Unquote(s, i + 1, Append(acc, s[i]))

Rej == [k |-> "reject", p |-> 0, v |-> [n |-> <<>>, c |-> <<>>], soft |-> FALSE]
Any == [Rej EXCEPT !.k = "any"]
Skip(soft) == [Rej EXCEPT !.k = "skip", !.soft = soft]
Set(p, v, soft) == [k |-> "set", p |-> p, v |-> v, soft |-> soft]

Read(lex, tok, kind) ==
  LET I == {i \in 1..Len(lex) : lex[i].t = tok} IN
  IF I = {} THEN "no"
  ELSE LET e == lex[CHOOSE i \in I : TRUE] IN
       CASE kind = "int" -> e.i [] kind = "REAL" -> e.r [] kind = "bool" -> e.b

\* a string value as written in a file or on the command line
ReadChars(p, par, s, soft) ==
  IF s # <<>> /\ s[1] = QUOTE
  THEN LET u == Unquote(s, 2, <<>>) IN
       IF ~u.ok THEN Any
       ELSE IF Len(u.v) >= par.size THEN Rej ELSE Set(p, [n |-> <<>>, c |-> u.v], soft)
  ELSE IF Len(s) >= par.size THEN Rej ELSE Set(p, [n |-> <<>>, c |-> s], soft)

ReadNums(p, par, lex, toks, soft) ==
  LET V == [i \in 1..Len(toks) |-> Read(lex, toks[i], par.kind)] IN
  IF \E i \in 1..Len(toks) : V[i] = "no" THEN Rej
  ELSE IF \E i \in 1..Len(toks) : V[i] = "?" THEN Any
  ELSE Set(p, [n |-> V, c |-> <<>>], soft)

\* what one line of the parameter file asks for
LineMeans(P, lex, line) ==
  LET s == Sub(line, 1, Comment(line, 1, FALSE) - 1)   e == Find(s, EQS) IN
  IF e = 0 THEN Skip(Trim(s) # <<>>)
  ELSE LET lhs == Trim(Sub(s, 1, e - 1))  rhs == Trim(Sub(s, e + 1, Len(s)))
           b == Find(lhs, LBR)
           nm == IF b = 0 THEN lhs ELSE Sub(lhs, 1, b - 1)
           br == IF b = 0 THEN <<>> ELSE Sub(lhs, b + 1, Len(lhs) - 1)
           I == {p \in 1..Len(P) : P[p].file /\ P[p].nm = nm}
           long == Len(line) > 1000 \/ Len(lhs) > 120
           brok == b = 0 \/ lhs[Len(lhs)] = RBR
           braces == rhs # <<>> /\ rhs[1] = LCU
           closed == braces /\ Len(rhs) > 1 /\ rhs[Len(rhs)] = RCU
           raw == IF braces THEN SplitAt(Sub(rhs, 2, Len(rhs) - 1), COMMA) ELSE <<rhs>>
           toks == [i \in 1..Len(raw) |-> Trim(raw[i])]
       IN IF I = {} THEN Skip(TRUE)
          ELSE LET p == CHOOSE p \in I : TRUE   par == P[p] IN
          IF ~brok THEN Rej
          ELSE IF par.kind = "char"
          THEN IF b # 0 THEN Rej ELSE IF braces THEN Any ELSE ReadChars(p, par, rhs, long)
          ELSE IF braces /\ ~closed THEN Rej
          ELSE IF par.size = 0
          THEN IF b # 0 THEN Rej
               ELSE IF braces /\ Len(toks) # 1
                    THEN IF \E i \in 1..Len(toks) : toks[i] = <<>> THEN Any ELSE Rej
               ELSE ReadNums(p, par, lex, toks, long \/ braces)
          ELSE IF b = 0 THEN Rej
          ELSE LET z == Read(lex, br, "int") IN
               IF Trim(br) # br THEN Any
               ELSE IF z \in {"no", "?"} THEN Rej
               ELSE IF z # par.szs THEN Rej
               ELSE IF \E i \in 1..Len(toks) : Len(toks) # 1 /\ toks[i] = <<>> THEN Any
               ELSE IF Len(toks) # par.size THEN Rej
               ELSE ReadNums(p, par, lex, toks, long \/ ~braces)

\* the file as a whole
Meanings(P, lex, lines) == [i \in 1..Len(lines) |-> LineMeans(P, lex, lines[i])]
FileMeans(P, M) ==
  LET sets == {i \in 1..Len(M) : M[i].k = "set"} IN
  IF \E i \in 1..Len(M) : M[i].k = "any" THEN [k |-> "any", soft |-> TRUE, v |-> <<>>]
  ELSE IF \E i \in 1..Len(M) : M[i].k = "reject" THEN [k |-> "reject", soft |-> FALSE, v |-> <<>>]
  ELSE IF \E i, j \in sets : i # j /\ M[i].p = M[j].p THEN [k |-> "reject", soft |-> FALSE, v |-> <<>>]
  ELSE [k |-> "set", soft |-> \E i \in 1..Len(M) : M[i].soft,
        v |-> [p \in 1..Len(P) |-> LET S == {i \in sets : M[i].p = p} IN
                 IF S = {} THEN P[p].def ELSE M[CHOOSE i \in S : TRUE].v]]

\* one steerable argument
ArgMeans(P, lex, p, arg) ==
  IF P[p].kind = "char" THEN ReadChars(p, P[p], arg, FALSE)
  ELSE LET V == Read(lex, arg, P[p].kind) IN
       IF V = "no" THEN IF Trim(arg) # arg THEN Any ELSE Rej
       ELSE IF V = "?" THEN Any ELSE Set(p, [n |-> <<V>>, c |-> <<>>], FALSE)

\* argv (without the program name): [s |-> codes, x |-> index into files or 0]
\* files[1] is the default parameter file ([there |-> , lines |-> ]).
Usage(ns, argv) ==
  LET n == Len(argv) IN
  IF n = 0 THEN [f |-> 1, a |-> FALSE]
  ELSE IF n = 1 /\ argv[1].x # 0 THEN [f |-> argv[1].x, a |-> FALSE]
  ELSE IF n = ns THEN [f |-> 1, a |-> TRUE]
  ELSE IF n = ns + 1 /\ argv[1].x # 0 THEN [f |-> argv[1].x, a |-> TRUE]
  ELSE [f |-> 0, a |-> FALSE]

\* files: [there |-> , m |-> meanings of the lines]
Resolve(P, steer, lex, files, argv) ==
  LET u == Usage(Len(steer), argv) IN
  IF u.f = 0 THEN [k |-> "reject", soft |-> FALSE, v |-> <<>>]
  ELSE IF ~files[u.f].there THEN [k |-> "reject", soft |-> FALSE, v |-> <<>>]
  ELSE LET F == FileMeans(P, files[u.f].m)
           A == [i \in 1..(IF u.a THEN Len(steer) ELSE 0) |->
                  ArgMeans(P, lex, steer[i], argv[Len(argv) - Len(steer) + i].s)] IN
       IF F.k = "reject" \/ \E i \in 1..Len(A) : A[i].k = "reject" THEN [k |-> "reject", soft |-> FALSE, v |-> <<>>]
       ELSE IF F.k = "any" \/ \E i \in 1..Len(A) : A[i].k = "any" THEN [k |-> "any", soft |-> TRUE, v |-> <<>>]
       ELSE [k |-> "set", soft |-> F.soft,
             v |-> [p \in 1..Len(P) |-> LET S == {i \in 1..Len(A) : A[i].p = p} IN
                      IF S = {} THEN F.v[p] ELSE A[CHOOSE i \in S : TRUE].v]]
=============================================================================
