----------------------------- MODULE UpdaterMC ------------------------------
EXTENDS Updater
CONSTANTS Depth, Emit
Texts == {[core |-> "a", full |-> "a\n"], [core |-> "a", full |-> " a\n\n"], [core |-> "b", full |-> "b\n"],
          [core |-> "", full |-> ""], [core |-> "", full |-> "\n"], [core |-> "aé", full |-> "aé"]}
Ups == [text : Texts, how : {"ok", "fails", "nochange"}] \cup
       [text : {[core |-> "aé", full |-> "aé"]}, how : {"unencodable"}]
VARIABLES file, n, hist
vars == <<file, n, hist>>
View == <<file.core, file.full, n>>
Init == file = Absent /\ n = 0 /\ hist = <<>>
Upd(u) == file' = Target(file, u) /\ hist' = Append(hist, [k |-> "upd", u |-> u, at |-> 0])
Kill(u, at) == file' \in During(file, u) /\ hist' = Append(hist, [k |-> "kill", u |-> u, at |-> at])
Next == /\ n < Depth /\ n' = n + 1
        /\ \E u \in Ups : Upd(u) \/ \E at \in 0..9 : Kill(u, at)
        /\ (Emit => PrintT("H|" \o ToJson(hist')))
Spec == Init /\ [][Next]_vars
NoPartial == file.full \in {t.full : t \in Texts} \cup {"ABSENT"}
\* running an update twice in a row touches the file at most once
Idempotent == \A u \in Ups : Target(Target(file, u), u) = Target(file, u)
FailureIsInert == \A u \in Ups : Outcome(u) = "raises" => Target(file, u) = file
NoTouch == [][file'.gen # file.gen => file'.core # file.core \/ file.full = "ABSENT"]_vars
=============================================================================
