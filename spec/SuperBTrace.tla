---------------------------- MODULE SuperBTrace -----------------------------
(* Runs of compiled superB programs on a runtime that follows a schedule.     *)
(* kind "stage": what every chare holds when it evaluates the right-hand      *)
(*   sides of one stage (or at the end): y, a [chare][grid function][point];  *)
(*   U, A: the same of the program that does not split the grid (scaled).     *)
(* kind "run": how a run ended: chares, stuck, done, stages of each chare,    *)
(*   ref: stages of the undecomposed run, uses: <<sent in, used in>> stages   *)
(*   of messages between chares.                                              *)
(* kind "file": an output file against the same file of a run on one chare.   *)
EXTENDS Chare, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
Abs(x) == IF x < 0 THEN -x ELSE x
Cfg(t) == [N |-> <<t.N[1], t.N[2], t.N[3]>>, nc |-> <<t.nc[1], t.nc[2], t.nc[3]>>, ng |-> t.ng]
NL(C) == Ext(C, 1) * Ext(C, 2) * Ext(C, 3)
Map(C, c) == [i \in 1..NL(C) |-> 1 + GLin(C, Global(C, CUn(C, c), LUn(C, i - 1)))]
In(C) == [i \in 1..NL(C) |-> LInterior(C, LUn(C, i - 1))]
Wrong(v, u, m, in, all) == {i \in 1..Len(v) : (all \/ in[i]) /\ Abs(v[i] - u[m[i]]) > 3}
Stage(t) == LET C == Cfg(t) in == In(C) IN
  LET bads == {<<c, g>> \in (1..Len(t.y)) \X (1..Len(t.U)) : Wrong(t.y[c][g], t.U[g], Map(C, c - 1), in, t.sync[g] = 1) # {}}
      bada == {<<c, g>> \in (1..Len(t.y)) \X (1..Len(t.A)) : Wrong(t.a[c][g], t.A[g], Map(C, c - 1), in, TRUE) # {}}
      at(v, u, c) == LET w == Wrong(v, u, Map(C, c - 1), in, FALSE) x == IF w = {} THEN Wrong(v, u, Map(C, c - 1), in, TRUE) ELSE w IN LUn(C, (CHOOSE i \in x : TRUE) - 1)
  IN IF \E c \in 1..Len(t.y) : \E g \in 1..Len(t.U) : Len(t.y[c][g]) # NL(C) THEN "a chare's arrays do not have the size of its share"
     ELSE IF Len(t.y) # C.nc[1] * C.nc[2] * C.nc[3] THEN "not every chare evaluated this stage"
     ELSE IF \E c \in 1..Len(t.t) : Abs(t.t[c] - t.T) > 2 THEN "a chare's time differs from that of the undecomposed evolution"
     ELSE IF bads # {} THEN LET b == CHOOSE b \in bads : TRUE IN "chare " \o ToString(b[1] - 1) \o " differs from the undecomposed evolution in evolved grid function " \o ToString(b[2] - 1) \o " at point " \o ToString(at(t.y[b[1]][b[2]], t.U[b[2]], b[1]))
     ELSE IF bada # {} THEN LET b == CHOOSE b \in bada : TRUE IN "chare " \o ToString(b[1] - 1) \o " differs from the undecomposed evolution in auxiliary grid function " \o ToString(b[2] - 1) \o " at point " \o ToString(at(t.a[b[1]][b[2]], t.A[b[2]], b[1]))
     ELSE ""
RunOK(t) ==
  IF Len(t.stuck) > 0 THEN "the evolution does not finish: chare " \o ToString(t.stuck[1][1]) \o " waits for " \o t.stuck[1][2]
  ELSE IF ~t.exit \/ t.done < 1 THEN "the program does not end"
  ELSE IF \E i \in 1..Len(t.stages) : t.stages[i] # t.ref THEN "a chare evaluates another number of stages than the undecomposed evolution"
  ELSE IF \E i \in 1..Len(t.nn) : t.nn[i] # t.refnn THEN "a chare takes another number of steps than the undecomposed evolution"
  ELSE LET w == {u \in {t.uses[i] : i \in 1..Len(t.uses)} : u[1] # u[2]} IN
       IF w # {} THEN LET u == CHOOSE u \in w : TRUE IN "data sent in stage " \o ToString(u[1]) \o " is used in stage " \o ToString(u[2])
       ELSE ""
Row(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Abs(a[i] - b[i]) <= 3
File(t) ==
  IF ~t.present THEN "an output file of the run on one chare is missing"
  ELSE IF ~t.expected THEN "an output file the run on one chare does not write"
  ELSE IF t.open \/ t.covered # t.size THEN "the output file is not written completely"
  ELSE IF t.overlap \/ t.beyond THEN "chares write over each other in the output file"
  ELSE IF t.garbled THEN "the output file has a malformed line"
  ELSE IF Len(t.rows) # Len(t.want) THEN "the output file has " \o ToString(Len(t.rows)) \o " lines instead of " \o ToString(Len(t.want))
  ELSE IF \E i \in 1..Len(t.rows) : ~Row(t.rows[i], t.want[i]) THEN "the output file's contents differ from those of the run on one chare"
  ELSE ""
Why(t) == IF t.err # "" THEN t.err ELSE CASE t.kind = "stage" -> Stage(t) [] t.kind = "run" -> RunOK(t) [] OTHER -> File(t)
Init == l = 0 /\ bad = 0
Next == /\ l < Len(Trace) /\ l' = l + 1
        /\ LET t == Trace[l + 1] IN
           LET w == Why(t) IN IF w = "" THEN bad' = bad ELSE PrintT("BAD|" \o ToString(l + 1) \o "|" \o t.name \o ": " \o w) /\ bad' = bad + 1
Conforms == TRUE
TraceAccepted == TLCGet("stats").diameter >= Len(Trace)
=============================================================================
