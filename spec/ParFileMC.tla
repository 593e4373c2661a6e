------------------------------ MODULE ParFileMC -----------------------------
(* A menu of lines and arguments (IOEnv.MENU) is combined in every way; the  *)
(* laws of the resolution are checked on each, and the scenario is emitted.  *)
EXTENDS ParFile, TLC, Json, IOUtils
CONSTANTS MaxLines, Emit
M == JsonDeserialize(IOEnv.MENU)
VARIABLES f, a
L == 1..Len(M.lines)
LM == [x \in L |-> LineMeans(M.params, M.lex, M.lines[x])]
Lines(g) == [i \in 1..Len(g) |-> LM[g[i]]]
Res(g, h) == Resolve(M.params, M.steer, M.lex, <<[there |-> TRUE, m |-> Lines(g)]>>, M.argvs[h])
Init == f = <<>> /\ a \in 1..Len(M.argvs)
Next == /\ Len(f) < MaxLines /\ \E x \in L : f' = Append(f, x)
        /\ UNCHANGED a
Spec == Init /\ [][Next]_<<f, a>>
Swap(g) == [i \in 1..Len(g) |-> g[Len(g) + 1 - i]]
OrderFree == Res(f, a) = Res(Swap(f), a)
Given(h) == Usage(Len(M.steer), M.argvs[h]).a
CmdlineWins == LET r == Res(f, a) IN r.k = "set" /\ Given(a) =>
  \A i \in 1..Len(M.steer) :
    r.v[M.steer[i]] = ArgMeans(M.params, M.lex, M.steer[i], M.argvs[a][Len(M.argvs[a]) - Len(M.steer) + i].s).v
FileWins == LET r == Res(f, a) IN r.k = "set" =>
  \A p \in 1..Len(M.params) : (Given(a) => \A i \in 1..Len(M.steer) : M.steer[i] # p) =>
    LET S == {i \in 1..Len(f) : LET m == LM[f[i]] IN m.k = "set" /\ m.p = p} IN
    /\ Cardinality(S) <= 1
    /\ r.v[p] = IF S = {} THEN M.params[p].def ELSE LM[f[CHOOSE i \in S : TRUE]].v
Monotone == Len(f) < MaxLines => \A x \in L : Res(f, a).k = "reject" => Res(Append(f, x), a).k \in {"reject", "any"}
Out == Emit => PrintT("H|" \o ToJson([f |-> f, a |-> a]))
=============================================================================
