---------------------------- MODULE CacheTrace ------------------------------
(* Recorded schedules of real processes using the cache.  One line =         *)
(*  procs : who -> [kind, key, val, old]   steps : << [who, act, ent] >>     *)
(*  ent   : the entry of every key as any later process would find it        *)
(*  res   : who -> [st, val]               fresh: key -> fresh value         *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
None == "none"
\* values a complete entry of key k may hold in this history
Legal(t, k) == {t.init[k]} \cup {t.procs[p].val : p \in {q \in DOMAIN t.procs : t.procs[q].key = k}}
StepOK(t, before, s) ==
  \A k \in DOMAIN before :
    \/ s.ent[k] = before[k]
    \/ /\ s.act = "step"                          \* only a live step publishes
       /\ t.procs[s.who].key = k                  \* only its own key
       /\ t.procs[s.who].kind # "read"
       /\ s.ent[k] = t.procs[s.who].val           \* completely
RECURSIVE Walk(_, _, _)
Walk(t, ent, i) ==
  IF i > Len(t.steps) THEN ""
  ELSE LET s == t.steps[i] IN
       IF ~StepOK(t, ent, s)
       THEN "entry after " \o s.act \o " of " \o s.who \o " (" \o s.call \o ") is " \o ToString(s.ent)
       ELSE Walk(t, s.ent, i + 1)
\* entries of key k visible at some moment while p runs (after step a, up to b)
Seen(t, p, k) == LET own == {i \in 1..Len(t.steps) : t.steps[i].who = p} IN
   {t.steps[i].ent[k] : i \in 1..Len(t.steps)} \cup {t.init[k]}
ResOK(t, p) ==
  LET o == t.procs[p]  r == t.res[p]  k == o.key IN
  CASE r.st = "killed" -> TRUE
    [] o.kind = "fails" -> r.st = "exc"
    [] o.kind = "write" -> r.st = "ok"
    [] o.kind = "through" -> r.st = "ok" /\ r.val = t.fresh[k]
    [] o.kind = "read" -> r.st = "ok" /\ r.val \in Seen(t, p, k)
    [] OTHER -> FALSE
FinalOK(t) == \A k \in DOMAIN t.init :
   LET last == IF t.steps = <<>> THEN t.init[k] ELSE t.steps[Len(t.steps)].ent[k] IN
   /\ last \in (Legal(t, k) \cup {None})
   /\ (t.init[k] # None => last # None)
   /\ t.later[k] = (IF t.through[k] THEN t.fresh[k] ELSE last)
   /\ \A p \in DOMAIN t.procs :
        (t.procs[p].key = k /\ t.res[p].st = "ok" /\ t.procs[p].kind \in {"write", "through"}) => last # None
Judge(t) ==
  LET w == Walk(t, t.init, 1) IN
  IF w # "" THEN w
  ELSE IF \E p \in DOMAIN t.procs : ~ResOK(t, p)
       THEN LET p == CHOOSE q \in DOMAIN t.procs : ~ResOK(t, q)
            IN "result of " \o p \o " is " \o t.res[p].st \o " " \o t.res[p].val
  ELSE IF ~FinalOK(t) THEN "later run finds " \o ToString(t.later)
  ELSE ""
Init == l = 0 /\ bad = {}
Next == /\ l < Len(Trace) /\ l' = l + 1
        /\ LET w == Judge(Trace[l']) IN
           bad' = IF w = "" THEN bad ELSE bad \cup (IF PrintT("BAD|" \o ToString(l') \o "|" \o w) THEN {l'} ELSE {})
Conforms == TRUE
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
