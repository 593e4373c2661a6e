-------------------------------- MODULE Ckpt --------------------------------
(* Chares that advance in lock step by exchanging messages, a coordinated     *)
(* checkpoint, restarts from it, and migration of a chare while it waits.     *)
(* A step has two exchanges (a stage value k, then the update of y), so some  *)
(* of the state (k) matters between checkpoints only.                         *)
(*  Chares   number of chares        Steps   steps of the run                 *)
(*  Every    checkpoint when step % Every = 0                                 *)
(*  Crashes  restarts allowed        Moves   migrations allowed               *)
(*  Saved    the fields pack/unpack carries; the others come back as garbage  *)
(*  Barrier  the checkpoint waits for every chare's contribution              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Chares, Steps, Every, Crashes, Moves, Saved, Barrier, Emit
C == 0..(Chares - 1)
Fields == {"y", "k", "aux", "pc", "step", "flag"}
VARIABLES st, ch, buf, log, given, told, crashes, moves, hist
vars == <<st, ch, buf, log, given, told, crashes, moves, hist>>
Mod == 97
Garbage == 96
Y0(c) == 5 * c + 1
Aux(c) == 3 * c + 2
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Sum(f, S \ {x})
\* the uninterrupted evolution
KOf(y) == [c \in C |-> (y[c] + Aux(c) + Sum(y, C \ {c})) % Mod]
Adv(y) == LET k == KOf(y) IN [c \in C |-> (y[c] + 2 * k[c] + Sum(k, C \ {c})) % Mod]
W[n \in 0..Steps] == IF n = 0 THEN [c \in C |-> Y0(c)] ELSE Adv(W[n - 1])
Want(n) == W[n]
Due(n) == n % Every = 0
Fresh(c) == [y |-> Y0(c), k |-> 0, aux |-> Aux(c), pc |-> "begin", step |-> 0, flag |-> FALSE]
Init == /\ st = [c \in C |-> Fresh(c)] /\ ch = [p \in C \X C |-> <<>>] /\ buf = [p \in C \X C |-> <<>>]
        /\ log = <<>> /\ given = {} /\ told = {} /\ crashes = 0 /\ moves = 0 /\ hist = <<>>
\* what is left of a chare's state after packing and unpacking
Carried(s) == [y |-> IF "y" \in Saved THEN s.y ELSE Garbage, k |-> IF "k" \in Saved THEN s.k ELSE Garbage, aux |-> IF "aux" \in Saved THEN s.aux ELSE Garbage,
               pc |-> s.pc, step |-> IF "step" \in Saved THEN s.step ELSE 0, flag |-> IF "flag" \in Saved THEN s.flag ELSE TRUE]
Send(c, v) == ch' = [p \in C \X C |-> IF p[1] = c /\ p[2] # c THEN Append(ch[p], v) ELSE ch[p]]
Got(c) == \A d \in C \ {c} : buf[<<d, c>>] # <<>>
Take(c) == buf' = [p \in C \X C |-> IF p[2] = c /\ p[1] # c THEN Tail(buf[p]) ELSE buf[p]]
Vals(c) == [d \in C |-> IF d = c THEN 0 ELSE Head(buf[<<d, c>>])]
Keep == UNCHANGED <<log, crashes, moves, hist>>
Begin(c) == /\ st[c].pc = "begin" /\ UNCHANGED <<ch, buf, given, told>> /\ Keep
            /\ st' = [st EXCEPT ![c].pc = IF st[c].step >= Steps THEN "end" ELSE "output", ![c].flag = Due(st[c].step)]
\* the chare waits for the output of this step, then reads the flag
Output(c) == /\ st[c].pc = "output" /\ UNCHANGED <<ch, buf, told>> /\ Keep
             /\ IF st[c].flag THEN st' = [st EXCEPT ![c].pc = "held"] /\ given' = given \cup {c}
                ELSE st' = [st EXCEPT ![c].pc = "go"] /\ UNCHANGED given
Held(c) == /\ st[c].pc = "held" /\ c \in told /\ told' = told \ {c} /\ UNCHANGED <<ch, buf, given>> /\ Keep
           /\ st' = [st EXCEPT ![c].pc = "go"]
Go(c) == /\ st[c].pc = "go" /\ Send(c, st[c].y) /\ st' = [st EXCEPT ![c].pc = "stage"] /\ UNCHANGED <<buf, given, told>> /\ Keep
Stage(c) == /\ st[c].pc = "stage" /\ Got(c) /\ Take(c) /\ UNCHANGED <<given, told>> /\ Keep
            /\ LET k == (st[c].y + st[c].aux + Sum(Vals(c), C \ {c})) % Mod IN st' = [st EXCEPT ![c].k = k, ![c].pc = "update"] /\ Send(c, k)
Update(c) == /\ st[c].pc = "update" /\ Got(c) /\ Take(c) /\ UNCHANGED <<ch, given, told>> /\ Keep
             /\ st' = [st EXCEPT ![c].y = (st[c].y + 2 * st[c].k + Sum(Vals(c), C \ {c})) % Mod, ![c].step = st[c].step + 1, ![c].pc = "begin"]
Deliver(p) == /\ ch[p] # <<>> /\ ch' = [ch EXCEPT ![p] = Tail(@)] /\ buf' = [buf EXCEPT ![p] = Append(@, Head(ch[p]))] /\ UNCHANGED <<st, given, told>> /\ Keep
\* only the chares (and the messages they hold) are written
Checkpoint == /\ IF Barrier THEN given = C ELSE given # {}
              /\ log' = [s |-> [c \in C |-> Carried(st[c])], b |-> buf] /\ given' = {} /\ told' = C /\ UNCHANGED <<st, ch, buf, crashes, moves, hist>>
Restart == /\ log # <<>> /\ crashes < Crashes /\ crashes' = crashes + 1
           /\ st' = log.s /\ buf' = log.b /\ ch' = [p \in C \X C |-> <<>>] /\ given' = {} /\ told' = C /\ UNCHANGED <<log, moves, hist>>
At(c) == <<c, 2 * st[c].step + (IF st[c].pc = "update" THEN 1 ELSE 0)>>
Migrate(c) == /\ st[c].pc \in {"output", "held", "stage", "update"} /\ moves < Moves /\ moves' = moves + 1
              /\ Emit => \A i \in 1..Len(hist) : hist[i] # At(c)
              /\ st' = [st EXCEPT ![c] = Carried(@)] /\ UNCHANGED <<ch, buf, log, given, told, crashes>>
              /\ hist' = IF Emit THEN Append(hist, At(c)) ELSE hist
Over == ~Emit /\ (\A c \in C : st[c].pc = "end") /\ UNCHANGED vars
Step(c) == Begin(c) \/ Output(c) \/ Held(c) \/ Go(c) \/ Stage(c) \/ Update(c)
Next == (\E c \in C : Step(c) \/ Migrate(c)) \/ (\E p \in C \X C : Deliver(p)) \/ Checkpoint \/ Restart \/ Over
Spec == Init /\ [][Next]_vars /\ \A c \in C : WF_vars(Step(c)) /\ (\A p \in C \X C : WF_vars(Deliver(p))) /\ WF_vars(Checkpoint)
\* every chare holds what the uninterrupted run holds at its step
Same == \A c \in C : st[c].pc # "begin" \/ st[c].y = Want(st[c].step)[c]
Ended == \A c \in C : st[c].pc = "end" => st[c].y = Want(Steps)[c]
\* nothing is on its way when a checkpoint is written
Quiet == (given = C) => \A p \in C \X C : ch[p] = <<>> /\ buf[p] = <<>>
Ends == <>[](\A c \in C : st[c].pc = "end")
Out == (Emit /\ \A c \in C : st[c].pc = "end") => PrintT("H|" \o ToJson([n |-> Chares, h |-> hist]))
=============================================================================
