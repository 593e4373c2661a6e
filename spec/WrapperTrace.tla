---------------------------- MODULE WrapperTrace ----------------------------
(* Recorded runs of compiled wrappers.  One line =                           *)
(*  reg : f -> <<coords>>, narr : coord -> number of stored arrays,          *)
(*  steps : << [op, g, x, callee, got, want, live, total, fill, err] >>      *)
(*  callee: coordinate system of the specialisation that ran ("abort");      *)
(*  got/want: arguments received/passed; live: live allocations of grid g;   *)
(*  fill: every element written; err: largest deviation, in tolerances       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
Range(s) == {s[i] : i \in 1..Len(s)}
W == INSTANCE Wrapper WITH Funcs <- {}, Coords <- {}, Grids <- {}, MaxLen <- 0, Emit <- FALSE,
       reg <- 0, coord <- 0, store <- 0, dead <- 0, hist <- 0
Upd(m, k, v) == [x \in DOMAIN m |-> IF x = k THEN v ELSE m[x]]
RECURSIVE Sum(_, _, _)
Sum(t, st, gs) == IF gs = {} THEN 0 ELSE LET g == CHOOSE x \in gs : TRUE IN
   (IF st.store[g] = "none" THEN 0 ELSE t.narr[st.coord[g]]) + Sum(t, st, gs \ {g})
RECURSIVE Walk(_, _, _)
Walk(t, st, i) ==
  IF i > Len(t.steps) THEN ""
  ELSE LET s == t.steps[i]
           R == [f \in DOMAIN t.reg |-> Range(t.reg[f])]
           at == "step " \o ToString(i) \o " " \o s.op \o " " \o s.x \o ": "
           n == CASE s.op = "set"    -> [st EXCEPT !.coord = Upd(st.coord, s.g, s.x)]
                  [] s.op = "malloc" -> [st EXCEPT !.store = Upd(st.store, s.g, "alloc")]
                  [] s.op = "fill"   -> [st EXCEPT !.store = Upd(st.store, s.g, "filled")]
                  [] s.op = "free"   -> [st EXCEPT !.store = Upd(st.store, s.g, "none")]
                  [] OTHER -> st IN
  IF s.op = "call" /\ s.callee # W!Dispatch(R, s.x, st.coord[s.g])
  THEN at \o "ran " \o s.callee \o " on a grid set to " \o st.coord[s.g]
  ELSE IF s.op = "call" /\ s.callee # "abort" /\ s.got # s.want
  THEN at \o "received " \o ToString(s.got) \o " instead of " \o ToString(s.want)
  ELSE IF s.op # "call" /\ s.callee # "none" THEN at \o s.callee
  ELSE IF s.callee = "abort" THEN ""
  ELSE IF s.live # Sum(t, n, DOMAIN n.store) THEN at \o ToString(s.live) \o " live allocations instead of " \o ToString(Sum(t, n, DOMAIN n.store))
  ELSE IF s.op = "fill" /\ ~s.fill THEN at \o "left elements unset"
  ELSE IF s.op = "read" /\ s.err > 1 THEN at \o "stored metric deviates by " \o ToString(s.err) \o " tolerances"
  ELSE Walk(t, n, i + 1)
Judge(t) == Walk(t, [coord |-> [g \in Range(t.grids) |-> "?"], store |-> [g \in Range(t.grids) |-> "none"]], 1)
Init == l = 0 /\ bad = {}
Next == /\ l < Len(Trace) /\ l' = l + 1
        /\ LET w == Judge(Trace[l']) IN
           bad' = IF w = "" THEN bad ELSE bad \cup (IF PrintT("BAD|" \o ToString(l') \o "|" \o w) THEN {l'} ELSE {})
Conforms == TRUE
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
