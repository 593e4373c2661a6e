-------------------------------- MODULE Gpu ---------------------------------
(* Kernel launches and host/device memory.                                   *)
(* A launch runs its kernel once per thread of a box of blocks of threads,   *)
(* in any order; a kernel that handles the point with its own global index   *)
(* must see every point of the grid exactly once.  Memory: host and device   *)
(* copies of the grid functions; a copy is queued on a stream and happens at *)
(* any time until that stream is waited for.                                 *)
EXTENDS Integers, Sequences, FiniteSets
D3 == 1..3
Pad(q) == [d \in D3 |-> IF d <= Len(q) THEN q[d] ELSE 1]
Ceil(n, t) == (n + t - 1) \div t
Blocks(req, n, t) == IF req = << >> THEN [d \in D3 |-> Ceil(n[d], t[d])] ELSE Pad(req)
Box(n) == (0..n[1] - 1) \X (0..n[2] - 1) \X (0..n[3] - 1)
(* threads <<b, t>> -> point *)
Point(td, b, t) == [d \in D3 |-> b[d] * td[d] + t[d]]
InGrid(n, p) == \A d \in D3 : p[d] < n[d]
Times(n, td, bd) == [p \in Box(n) |-> Cardinality({q \in Box(bd) \X Box(td) : Point(td, q[1], q[2]) = p})]
(* streams: "none" no stream asked for, "default" by grid, "given" a number *)
Stream(how, given, grid, ns) == CASE how = "none" -> -1 [] how = "default" -> grid % ns [] OTHER -> given
=============================================================================
