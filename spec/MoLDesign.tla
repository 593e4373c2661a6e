----------------------------- MODULE MoLDesign ------------------------------
(* The three low-storage buffer schedules used to realise a tableau (generic, *)
(* diagonal, three-stage diagonal), over the field Z_7, for every explicit    *)
(* tableau with at most S stages and coefficients in Coef.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS S, Coef
P == 7
VARIABLES n, a, b, alg, s, buf, seen
vars == <<n, a, b, alg, s, buf, seen>>

Vec == 1..(n + 1)
E(j) == [i \in Vec |-> IF i = j THEN 1 ELSE 0]
Y == E(n + 1)
Add(u, v) == [i \in Vec |-> (u[i] + v[i]) % P]
Sub(u, v) == [i \in Vec |-> (u[i] + P - v[i]) % P]
Scl(c, v) == [i \in Vec |-> (c * v[i]) % P]
Inv(c) == CHOOSE d \in 1..(P-1) : (c * d) % P = 1
Diagonal(nn, aa) == \A i \in 1..nn : \A j \in 1..(i-1) : j < i - 1 => aa[i][j] = 0
Row(i) == [j \in Vec |-> IF j = n + 1 THEN 1 ELSE IF j < i THEN a[i][j] ELSE 0]
BRow == [j \in Vec |-> IF j = n + 1 THEN 1 ELSE b[j]]

Init ==
  /\ n \in 1..S
  /\ a \in [1..n -> [1..n -> Coef]]
  /\ \A i \in 1..n : \A j \in i..n : a[i][j] = 0
  /\ b \in [1..n -> Coef]
  /\ alg \in {"generic", "diagonal", "rk3"}
  /\ alg \in {"diagonal", "rk3"} => n > 1 /\ Diagonal(n, a) /\ b[n] # 0
  /\ alg = "rk3" => n = 3 /\ a[2][1] # 0
  /\ alg = "diagonal" => \A i \in 2..n : a[i][i-1] # 0
  /\ s = 0
  /\ seen = <<>>
  /\ buf = [x \in {"y"} |-> [i \in 1..(n+1) |-> IF i = n+1 THEN 1 ELSE 0]]

Set(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
KB(i) == IF i % 2 = 1 THEN "odd" ELSE "even"

Generic ==
  /\ alg = "generic" /\ s < n
  /\ s' = s + 1
  /\ seen' = Append(seen, IF s = 0 THEN buf["y"] ELSE buf["next"])
  /\ LET b1 == Set(buf, "k" \o ToString(s'), E(s'))
         w(j) == IF s' = n THEN b[j] ELSE a[s'+1][j]
         sum[j \in 0..s'] == IF j = 0 THEN b1["y"] ELSE Add(sum[j-1], Scl(w(j), b1["k" \o ToString(j)]))
     IN buf' = Set(b1, IF s' = n THEN "y" ELSE "next", sum[s'])
  /\ UNCHANGED <<n, a, b, alg>>

Diag ==
  /\ alg = "diagonal" /\ s < n
  /\ s' = s + 1
  /\ seen' = Append(seen, IF s = 0 THEN buf["y"] ELSE buf[KB(s)])
  /\ LET k == E(s') IN
     buf' = IF s' < n
            THEN Set(Set(buf, "tot", IF s = 0 THEN Scl(b[1], k) ELSE Add(buf["tot"], Scl(b[s'], k))),
                     KB(s'), Add(buf["y"], Scl(a[s'+1][s'], k)))
            ELSE Set(buf, "y", Add(Add(buf["y"], buf["tot"]), Scl(b[n], k)))
  /\ UNCHANGED <<n, a, b, alg>>

RK3 ==
  /\ alg = "rk3" /\ s < 3
  /\ s' = s + 1
  /\ seen' = Append(seen, IF s = 0 THEN buf["y"] ELSE IF s = 1 THEN buf["A"] ELSE buf["B"])
  /\ LET k == E(s') IN
     buf' = IF s' = 1 THEN Set(buf, "A", Add(buf["y"], Scl(a[2][1], k)))
            ELSE IF s' = 2 THEN
              Set(Set(buf, "A", Add(Add(Scl((b[1] * Inv(a[2][1])) % P, Sub(buf["A"], buf["y"])), buf["y"]), Scl(b[2], k))),
                  "B", Add(buf["y"], Scl(a[3][2], k)))
            ELSE Set(buf, "y", Add(buf["A"], Scl(b[3], k)))
  /\ UNCHANGED <<n, a, b, alg>>

Next == Generic \/ Diag \/ RK3
Spec == Init /\ [][Next]_vars
StageInputs == \A i \in 1..Len(seen) : seen[i] = Row(i)
Final == s = n => buf["y"] = BRow
StateKept == s < n => buf["y"] = Y
=============================================================================
