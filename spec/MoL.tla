-------------------------------- MODULE MoL --------------------------------
(* One explicit Runge-Kutta step as the user of the generated time stepper   *)
(* sees it.  The state of a grid is a linear combination of the basis        *)
(*   k_1 .. k_s (outputs of the right-hand-side evaluations) and y_n,        *)
(* written as the coefficient sequence <<a_1, .., a_s, 1>>.  Every grid does *)
(*   Rhs(1) Post+ [PostPost] Rhs(2) Post+ ... Rhs(s) Post+                   *)
(* where Rhs(i) must see row i of the tableau with fresh ghost zones at time *)
(* t + c_i dt, and the step ends with y_n = row b.                           *)
EXTENDS Butcher, FiniteSets, TLC

Zero == <<0, 0>>
One  == <<1, 0>>
\* |x - y| <= tol * 10^-9 without overflowing 32 bits
Close(x, y, tol) ==
  IF x[1] = y[1] THEN LET d == x[2] - y[2] IN d <= tol /\ -d <= tol
  ELSE IF x[1] = y[1] + 1 THEN (x[2] + (1000000000 - y[2])) <= tol
  ELSE IF y[1] = x[1] + 1 THEN (y[2] + (1000000000 - x[2])) <= tol
  ELSE FALSE
Tol == 3

RowOf(t, s) == \* expected stage input for stage s (1-based); s = t.s + 1: the new state
  [j \in 1..(t.s + 1) |->
     IF j = t.s + 1 THEN One
     ELSE IF s = t.s + 1 THEN t.b[j]
     ELSE IF j < s THEN t.a[s][j] ELSE Zero]
VecClose(v, w) == Len(v) = Len(w) /\ \A j \in 1..Len(v) : Close(v[j], w[j], Tol)

\* per-grid progress: number of rhs evaluations done, posts since the last one
Start(G) == [g \in 0..(G-1) |-> [done |-> 0, posts |-> 0]]
StageComplete(st, s) == \A g \in DOMAIN st : st[g].done = s /\ st[g].posts > 0
=============================================================================
