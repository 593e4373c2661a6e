------------------------------ MODULE Updater ------------------------------
(* Conditional file updater.  A text is a record [core, full]: full is the   *)
(* exact text, core the text without surrounding blanks.  A file is absent   *)
(* or [core, full, gen]; gen counts how often it was physically rewritten.   *)
EXTENDS Naturals, Sequences, TLC, Json
Absent == [core |-> "", full |-> "ABSENT", gen |-> 0]
Exists(f) == f.full # "ABSENT"
\* u : [text, how] , how in {"ok", "fails", "unencodable", "nochange"}
Target(f, u) ==
  IF u.how # "ok" THEN f
  ELSE IF Exists(f) /\ f.core = u.text.core THEN f
  ELSE [core |-> u.text.core, full |-> u.text.full, gen |-> f.gen + 1]
Outcome(u) == IF u.how \in {"fails", "unencodable"} THEN "raises" ELSE "returns"
\* states of the file a reader may meet while the update runs / after a kill
During(f, u) == {f, Target(f, u)}
=============================================================================
