----------------------------- MODULE CkptTrace ------------------------------
(* A compiled superB program run twice: undisturbed, and continued from its   *)
(* checkpoints (how "restart") or with chares that migrate while they wait    *)
(* (how "migrate").  run, base: [chare][stage] -> digest of what the chare    *)
(* holds and its time when it evaluates that stage; fin, bfin: the same at    *)
(* the end; files, bfiles: output files; pups: <<size, packed, unpacked>>;    *)
(* lost: messages on their way at each checkpoint, which a restart drops      *)
(* (those nobody waits for, such as the I/O callbacks broadcast to every       *)
(* chare, may be: whatever matters shows below); taken: the steps at which    *)
(* a checkpoint was written, every, dt (scaled), n: steps of the run.         *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
Abs(x) == IF x < 0 THEN -x ELSE x
Off(t, k) == LET x == k * t.dt r == (2 * x + t.every) \div (2 * t.every) IN Abs(r * t.every - x)
Taken(t) == {t.taken[i] : i \in 1..Len(t.taken)}
Missed(t) == {k \in 0..(t.n - 1) : 2 * Off(t, k) < t.dt - 8 /\ k \notin Taken(t)}
Extra(t) == {k \in Taken(t) : k >= t.n \/ 2 * Off(t, k) > t.dt + 8}
FirstDiff(a, b) == IF Len(a) # Len(b) THEN 0 ELSE CHOOSE i \in 1..Len(a) : a[i] # b[i]
Why(t) ==
  IF t.err # "" THEN t.err
  ELSE IF \E i \in 1..Len(t.pups) : t.pups[i][1] # t.pups[i][2] \/ t.pups[i][2] # t.pups[i][3] THEN "sizing, packing and unpacking a chare disagree"
  ELSE IF Len(t.stuck) > 0 THEN "the continued run does not finish: chare " \o ToString(t.stuck[1][1]) \o " waits for " \o t.stuck[1][2]
  ELSE IF Missed(t) # {} THEN "no checkpoint at step " \o ToString(CHOOSE k \in Missed(t) : TRUE) \o " although one is due"
  ELSE IF Extra(t) # {} \/ \E i, j \in 1..Len(t.taken) : i # j /\ t.taken[i] = t.taken[j] THEN "a checkpoint is written that is not due"
  ELSE IF Len(t.run) # Len(t.base) THEN "another number of chares"
  ELSE IF \E c \in 1..Len(t.base) : t.run[c] # t.base[c]
       THEN LET c == CHOOSE c \in 1..Len(t.base) : t.run[c] # t.base[c] IN "chare " \o ToString(c - 1) \o " differs from the undisturbed run from stage " \o ToString(FirstDiff(t.run[c], t.base[c])) \o " on"
  ELSE IF t.fin # t.bfin THEN "the final state differs from that of the undisturbed run"
  ELSE IF t.files # t.bfiles THEN "the output files differ from those of the undisturbed run"
  ELSE ""
Init == l = 0 /\ bad = 0
Next == /\ l < Len(Trace) /\ l' = l + 1
        /\ LET t == Trace[l + 1] IN
           LET w == Why(t) IN IF w = "" THEN bad' = bad ELSE PrintT("BAD|" \o ToString(l + 1) \o "|" \o t.name \o ": " \o w) /\ bad' = bad + 1
Conforms == TRUE
TraceAccepted == TLCGet("stats").diameter >= Len(Trace)
=============================================================================
