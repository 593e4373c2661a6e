------------------------------ MODULE GpuTrace ------------------------------
(* Records of generated CUDA code run by an emulated device.                 *)
(*  k = "launch": one kernel object, its launch block and call;              *)
(*  k = "mem": a history of copies of grid functions between the two sides;  *)
(*  k = "side": coordinates, parameter structs, allocations.                 *)
(*  k = "reduce": a global reduction of an array.                            *)
EXTENDS Gpu, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
Launch(t) ==
  LET q == t.req  o == t.got  w == Stream(q.stream, q.given, q.grid, q.ns) IN
  IF q.global /\ q.nolaunch THEN (IF o.reject THEN "" ELSE "a kernel without launch settings is accepted")
  ELSE IF o.reject THEN "rejected"
  ELSE IF {o.args[i][1] : i \in DOMAIN o.args} # {q.args[i][1] : i \in DOMAIN q.args} THEN "kernel has other parameters than requested"
  ELSE IF \E i \in DOMAIN o.args, j \in DOMAIN q.args : o.args[i][1] = q.args[j][1] /\ o.args[i][2] # q.args[j][2] THEN "an argument arrives as another's value"
  ELSE IF q.sid /\ q.kind # "host" /\ o.streamarg # (IF w = -1 THEN q.outer ELSE w) THEN "the kernel is told another stream than it runs on"
  ELSE IF (o.checks > 0) # q.check THEN "error check after the call is " \o (IF q.check THEN "missing" ELSE "there though not asked for")
  ELSE IF q.kind # "global" THEN (IF o.runs = 1 /\ ~o.launched THEN "" ELSE "not a plain function call")
  ELSE LET td == Pad(q.threads) IN
  IF ~o.launched THEN "kernel is not launched"
  ELSE IF o.td # td THEN "threads per block " \o ToString(o.td) \o " instead of " \o ToString(td)
  ELSE IF q.blocks # << >> /\ o.bd # Pad(q.blocks) THEN "blocks per grid " \o ToString(o.bd) \o " instead of " \o ToString(Pad(q.blocks))
  ELSE IF q.blocks = << >> /\ \E i \in DOMAIN o.cnt : o.cnt[i] # 1 THEN "grid points are not each visited once: " \o ToString(o.cnt)
  ELSE IF o.stream # w THEN "runs on stream " \o ToString(o.stream) \o " instead of " \o ToString(w)
  ELSE IF o.sm # q.sm THEN "shared memory " \o ToString(o.sm) \o " instead of " \o ToString(q.sm)
  ELSE ""
Eq(a, b) == \A i \in DOMAIN a : a[i] = b[i]
RECURSIVE Mem(_, _, _)
Mem(m, h, i) ==
  IF i > Len(h) THEN "" ELSE LET e == h[i]
      w == CASE e.op = "seth" -> [m EXCEPT !.h[e.h] = e.v] [] e.op = "setd" -> [m EXCEPT !.d[e.g] = e.v]
             [] e.op = "d2h" -> [m EXCEPT !.h[e.h] = m.d[e.g]] [] OTHER -> [m EXCEPT !.d[e.g] = m.h[e.h]] IN
  IF w.h # e.host \/ w.d # e.dev THEN "step " \o ToString(i) \o " (" \o e.op \o " host function " \o ToString(e.h) \o ", device function " \o ToString(e.g) \o "): the sides hold " \o ToString(e.host) \o " and " \o ToString(e.dev) \o " instead of " \o ToString(w.h) \o " and " \o ToString(w.d)
  ELSE Mem(w, h, i + 1)
SetMin(s) == CHOOSE x \in s : \A y \in s : x <= y
SetMax(s) == CHOOSE x \in s : \A y \in s : x >= y
RECURSIVE SumTo(_, _)
SumTo(q, i) == IF i = 0 THEN 0 ELSE q[i] + SumTo(q, i - 1)
Reduce(t) == LET s == {t.data[i] : i \in DOMAIN t.data}
                 w == CASE t.what = "sum" -> SumTo(t.data, Len(t.data)) [] t.what = "minimum" -> SetMin(s) [] OTHER -> SetMax(s) IN
  IF t.got = w THEN "" ELSE t.what \o " is " \o ToString(t.got) \o " instead of " \o ToString(w)
Bad(t) ==
  IF t.err # "" THEN t.name \o ": " \o t.err
  ELSE LET w == CASE t.k = "launch" -> Launch(t) [] t.k = "mem" -> Mem([h |-> t.h0, d |-> t.d0], t.hist, 1) [] t.k = "reduce" -> Reduce(t)
                  [] OTHER -> (IF t.got = t.want THEN "" ELSE "holds " \o ToString(t.got) \o " instead of " \o ToString(t.want))
       IN IF w = "" THEN "" ELSE t.name \o ": " \o w
Init == l = 0 /\ bad = 0
Next == /\ l < Len(Trace) /\ l' = l + 1
        /\ LET w == Bad(Trace[l + 1]) IN IF w = "" THEN bad' = bad ELSE PrintT("BAD|" \o ToString(l + 1) \o "|" \o w) /\ bad' = bad + 1
Spec == Init /\ [][Next]_<<l, bad>>
Conforms == TRUE
TraceAccepted == TLCGet("stats").diameter >= Len(Trace)
=============================================================================
