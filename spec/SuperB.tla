------------------------------- MODULE SuperB -------------------------------
(* The message-driven evolution.  Every chare goes through Stages stages; in  *)
(* each it exchanges Groups kinds of grid functions, and for each of them     *)
(* first boundary data with chares that need it (Src, recorded from the       *)
(* compiled program), then ghost planes in the three directions in turn.      *)
(* A channel between two chares delivers in order; nothing else is promised,  *)
(* so any nonempty channel may deliver next.  A chare handles a message when  *)
(* it waits for one of that kind (and, unless AnySource, from that chare).    *)
EXTENDS Chare, TLC, Json, IOUtils
CONSTANTS Stages, Groups, AnySource, Emit
Topo == ndJsonDeserialize(IOEnv.TOPO)
VARIABLES k, st, at, got, buf, ch, clash, hist
vars == <<k, st, at, got, buf, ch, clash, hist>>
Cf == LET t == Topo[k] IN [N |-> <<t.N[1], t.N[2], t.N[3]>>, nc |-> <<t.nc[1], t.nc[2], t.nc[3]>>, ng |-> t.ng]
Nc(j) == Topo[j].nc[1] * Topo[j].nc[2] * Topo[j].nc[3]
P == 0..(Nc(k) - 1)
Srcs(j, c) == {Topo[j].src[c + 1][i] : i \in 1..Len(Topo[j].src[c + 1])}
Dsts(j, c) == {d \in 0..(Nc(j) - 1) : c \in Srcs(j, d)}
Neigh(j, c, d) == LET nc == Topo[j].nc x == UnLin(nc[1], nc[2], c) IN
  {Lin(nc[1], nc[2], [x EXCEPT ![d] = @ - 1]) : z \in {1} \cap (IF x[d] > 0 THEN {1} ELSE {})} \cup {Lin(nc[1], nc[2], [x EXCEPT ![d] = @ + 1]) : z \in {1} \cap (IF x[d] < nc[d] - 1 THEN {1} ELSE {})}
\* block 4g: boundary data of group g; 4g + d: ghost planes in direction d
Blocks == 4 * Groups
To(j, c, b) == IF b % 4 = 0 THEN Dsts(j, c) ELSE Neigh(j, c, b % 4)
From(j, c, b) == IF b % 4 = 0 THEN Srcs(j, c) ELSE Neigh(j, c, b % 4)
\* run chare c until it must wait: from the start of a block (fresh) or in the middle of one
RECURSIVE Run(_, _)
First(s, Q(_)) == LET i == {i \in 1..Len(s) : Q(s[i])} IN IF i = {} THEN 0 ELSE CHOOSE x \in i : \A y \in i : x <= y
Del(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
\* a chare's state: [j, c, st, at, got, buf, out, clash]; out: messages sent, in order
Send(S) == [S EXCEPT !.out = @ \o LET t == To(S.j, S.c, S.at) IN LET seq[q \in SUBSET t] == IF q = {} THEN <<>> ELSE LET x == CHOOSE x \in q : \A y \in q : x <= y IN <<[to |-> x, b |-> S.at, st |-> S.st, from |-> S.c]>> \o seq[q \ {x}] IN seq[t]]
Run(S, fresh) ==
  IF S.st > Stages THEN S
  ELSE LET R == IF fresh THEN Send(S) ELSE S
           need == From(R.j, R.c, R.at)
           nxt == [R EXCEPT !.got = {}, !.at = (@ + 1) % Blocks, !.st = IF R.at = Blocks - 1 THEN @ + 1 ELSE @]
       IN IF Cardinality(R.got) = Cardinality(need) THEN Run(nxt, TRUE)
          ELSE LET any == AnySource /\ R.at % 4 = 0
                   \* sources are waited for in ascending order
                   w == CHOOSE x \in need \ {g[1] : g \in R.got} : \A y \in need \ {g[1] : g \in R.got} : x <= y
                   i == First(R.buf, LAMBDA m : m.b = R.at /\ (any \/ m.from = w))
               IN IF i = 0 THEN R
                  ELSE LET m == R.buf[i] IN
                       IF m.st # R.st \/ m.from \in {g[1] : g \in R.got} THEN [R EXCEPT !.clash = TRUE, !.buf = Del(@, i)]
                       ELSE Run([R EXCEPT !.got = @ \cup {<<m.from, m.st>>}, !.buf = Del(@, i)], FALSE)
Zero(j, c) == [j |-> j, c |-> c, st |-> 1, at |-> 0, got |-> {}, buf |-> <<>>, out |-> <<>>, clash |-> FALSE]
State(c) == [j |-> k, c |-> c, st |-> st[c], at |-> at[c], got |-> got[c], buf |-> buf[c], out |-> <<>>, clash |-> FALSE]
Put(c, R, h) ==
  /\ st' = [st EXCEPT ![c] = R.st] /\ at' = [at EXCEPT ![c] = R.at] /\ got' = [got EXCEPT ![c] = R.got] /\ buf' = [buf EXCEPT ![c] = R.buf]
  /\ ch' = [e \in DOMAIN h |-> IF e[1] = c THEN h[e] \o SelectSeq(R.out, LAMBDA m : m.to = e[2]) ELSE h[e]]
  /\ clash' = (clash \/ R.clash) /\ UNCHANGED k
Init == /\ k \in 1..Len(Topo) /\ st = [c \in P |-> 0] /\ at = [c \in P |-> 0] /\ got = [c \in P |-> {}] /\ buf = [c \in P |-> <<>>]
        /\ ch = [e \in P \X P |-> <<>>] /\ clash = FALSE /\ hist = <<>>
\* the start message, from outside
Begin(c) == st[c] = 0 /\ Put(c, Run([Zero(k, c) EXCEPT !.buf = buf[c]], TRUE), ch) /\ hist' = IF Emit THEN Append(hist, <<-1, c>>) ELSE hist
Deliver(s, d) ==
  /\ ch[<<s, d>>] # <<>>
  /\ LET m == Head(ch[<<s, d>>]) h == [ch EXCEPT ![<<s, d>>] = Tail(@)] IN
     IF st[d] = 0 THEN buf' = [buf EXCEPT ![d] = Append(@, m)] /\ ch' = h /\ UNCHANGED <<k, st, at, got, clash>>
     ELSE Put(d, Run([State(d) EXCEPT !.buf = Append(@, m)], FALSE), h)
  /\ hist' = IF Emit THEN Append(hist, <<s, d>>) ELSE hist
Over == \A c \in P : st[c] = Stages + 1
Next == \/ \E c \in P : Begin(c)
        \/ \E s \in P, d \in P : Deliver(s, d)
        \/ ~Emit /\ Over /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars /\ WF_vars(\/ \E c \in P : Begin(c) \/ \E s \in P, d \in P : Deliver(s, d))
NoClash == ~clash                                    \* every message used in the stage it was sent in, once per source
NothingLeft == Over => \A e \in P \X P : ch[e] = <<>> /\ \A c \in P : buf[c] = <<>>
Ahead == \A c \in P, d \in P : (d \in From(k, c, 1) \cup From(k, c, 2) \cup From(k, c, 3)) => (st[c] - st[d]) \in -1..1
\* in simulation: print the schedule once
Out == (Emit /\ Over) => PrintT("H|" \o ToJson([k |-> k, h |-> hist]))
Ends == <>Over
=============================================================================
