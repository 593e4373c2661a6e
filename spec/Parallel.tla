------------------------------ MODULE Parallel ------------------------------
\* Deferred code-generation tasks.  The registries are one map from entry to
\* value; a task is a sequence of writes to it.  "reg" keeps an existing entry,
\* "set" replaces it, "app" appends to it.
EXTENDS Integers, Sequences, FiniteSets, TLC
Put(env, k, v) == [x \in DOMAIN env \cup {k} |-> IF x = k THEN v ELSE env[x]]
Write(env, w) ==
  IF w.mode = "reg" /\ w.k \in DOMAIN env THEN env
  ELSE IF w.mode = "app" /\ w.k \in DOMAIN env THEN Put(env, w.k, env[w.k] \o w.v)
  ELSE Put(env, w.k, w.v)
RECURSIVE Run(_, _, _)
Run(env, ws, i) == IF i > Len(ws) THEN env ELSE Run(Write(env, ws[i]), ws, i + 1)
After(env, task) == Run(env, task, 1)
RECURSIVE SerialFrom(_, _, _)
SerialFrom(env, tasks, i) == IF i > Len(tasks) THEN env ELSE SerialFrom(After(env, tasks[i]), tasks, i + 1)
Serial(base, tasks) == SerialFrom(base, tasks, 1)
Changed(base, env) == {k \in DOMAIN env : k \notin DOMAIN base \/ env[k] # base[k]}
\* Effects are independent: an entry written by two tasks is either registered
\* identically by both, or left by both as it was.
Keys(task) == {task[n].k : n \in 1..Len(task)}
OnlyReg(task, k) == \A n \in 1..Len(task) : task[n].k = k => task[n].mode = "reg"
Independent(base, tasks) ==
  \A i, j \in 1..Len(tasks) : i < j =>
    LET a == After(base, tasks[i])  b == After(base, tasks[j]) IN
    \A k \in Keys(tasks[i]) \cap Keys(tasks[j]) :
      \/ k \in DOMAIN base /\ a[k] = base[k] /\ b[k] = base[k]
      \/ OnlyReg(tasks[i], k) /\ OnlyReg(tasks[j], k) /\ a[k] = b[k]
Over(env, add, keys) == [k \in DOMAIN env \cup keys |-> IF k \in keys THEN add[k] ELSE env[k]]
MergeDelta(base, env, snap) == Over(env, snap, Changed(base, snap))
MergeAll(env, snap) == Over(env, snap, DOMAIN snap)
=============================================================================
