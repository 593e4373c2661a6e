---------------------------- MODULE StencilTrace ----------------------------
(* Generated kernels.  One line =                                             *)
(*  n: order, iv: << 1/dx >>, rad: largest offset read,                       *)
(*  outs: << [op, d1, d2, gf, ctl, st: << [gf, o, c] >>] >>  each output of   *)
(*     the kernel and the weights found by feeding unit impulses,             *)
(*  comp: << [terms: << << coefficient, << output ids >> >> >>, vals, got] >> *)
(*     a composite output: sum of products of the single ones,                *)
(*  err: "" or why there is no kernel.                                        *)
EXTENDS Stencil, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
Range(s) == {s[i] : i \in 1..Len(s)}
Name(t, o) == "order " \o ToString(t.n) \o " " \o t.infra \o " " \o t.mode \o " " \o o.op \o ToString(o.d1) \o (IF o.op = "dDD" THEN ToString(o.d2) ELSE "") \o (IF o.ctl = "none" THEN "" ELSE " control " \o o.ctl)
Found(o) == [x \in {e.o : e \in Range(o.st)} |-> (CHOOSE e \in Range(o.st) : e.o = x).c]
Want(t, o) == Scaled(StencilOf(Resolve(o.op, o.ctl), o.d1, o.d2, t.n), Scale(o.op, o.d1, o.d2, t.iv))
BadOut(t, o) ==
  IF o.op = "id" THEN IF Range(o.st) = {[gf |-> o.gf, o |-> <<0, 0, 0>>, c |-> 1]} THEN "" ELSE Name(t, o) \o " does not read the grid function at the point"
  ELSE IF {e.gf : e \in Range(o.st)} # {o.gf} THEN Name(t, o) \o " of " \o o.gf \o " depends on " \o ToString({e.gf : e \in Range(o.st)})
  ELSE IF Found(o) # Want(t, o) THEN Name(t, o) \o " has the wrong stencil " \o ToString(Found(o)) \o " instead of " \o ToString(Want(t, o))
  ELSE ""
RECURSIVE Prod(_, _), Sum(_, _)
Prod(ids, v) == IF ids = <<>> THEN 1 ELSE Mul(v[ids[1]], Prod(Tail(ids), v))
Sum(ts, v) == IF ts = <<>> THEN 0 ELSE Add(Mul(M(ts[1][1]), Prod(ts[1][2], v)), Sum(Tail(ts), v))
Rad(t) == LET R == {Radius(t.outs[i].op, t.n) : i \in {i \in 1..Len(t.outs) : t.outs[i].op # "id"}} IN IF R = {} THEN 0 ELSE CHOOSE r \in R : \A q \in R : q <= r
Bad(t) ==
  LET b == {i \in 1..Len(t.outs) : BadOut(t, t.outs[i]) # ""}
      c == {i \in 1..Len(t.comp) : Sum(t.comp[i].terms, t.comp[i].vals) # t.comp[i].got} IN
  IF t.err # "" THEN "order " \o ToString(t.n) \o " " \o t.infra \o " " \o t.mode \o ": " \o t.err
  ELSE IF b # {} THEN BadOut(t, t.outs[CHOOSE i \in b : TRUE])
  ELSE IF c # {} THEN "order " \o ToString(t.n) \o " " \o t.infra \o " " \o t.mode \o ": a combination of derivatives has the wrong value"
  ELSE IF t.rad > t.ng THEN "order " \o ToString(t.n) \o " " \o t.infra \o ": reads " \o ToString(t.rad) \o " points away with only " \o ToString(t.ng) \o " ghost zones"
  ELSE IF t.rad > Rad(t) THEN "order " \o ToString(t.n) \o " " \o t.infra \o " " \o t.mode \o ": reads " \o ToString(t.rad) \o " points away"
  ELSE ""
Init == l = 0 /\ bad = 0
Next == /\ l < Len(Trace) /\ l' = l + 1
        /\ LET t == Trace[l + 1] IN
           IF Bad(t) = "" THEN bad' = bad ELSE PrintT("BAD|" \o ToString(l + 1) \o "|" \o Bad(t)) /\ bad' = bad + 1
Conforms == TRUE
TraceAccepted == TLCGet("stats").diameter >= Len(Trace)
=============================================================================
