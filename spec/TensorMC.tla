------------------------------ MODULE TensorMC ------------------------------
(* Sanity of the symmetry algebra itself: orbits partition the components,   *)
(* every exchange flips the value by its sign, counts are the textbook ones. *)
EXTENDS Tensor
Syms == {[rank |-> 2, sy |-> <<[sign |-> s, slots |-> <<1, 2>>]>>, s |-> s] : s \in {1, -1}} \cup
        {[rank |-> 3, sy |-> <<[sign |-> s, slots |-> sl]>>, s |-> s] : s \in {1, -1}, sl \in {<<1, 2>>, <<1, 3>>, <<2, 3>>, <<1, 2, 3>>}} \cup
        {[rank |-> 4, sy |-> <<[sign |-> s, slots |-> <<1, 2>>], [sign |-> r, slots |-> <<3, 4>>]>>, s |-> s] : s, r \in {1, -1}}
VARIABLES x, dim
Init == x \in Syms /\ dim \in 2..3
Next == UNCHANGED <<x, dim>>
Spec == Init /\ [][Next]_<<x, dim>>
SwapFlips == \A t \in Tuples(x.rank, dim) : \A m \in Moves(x.sy) :
   LET a == Value(x.sy, t)  b == Value(x.sy, Swap(t, m[1], m[2])) IN
   (a.sign = 0 /\ b.sign = 0) \/ (a.rep = b.rep /\ a.sign = b.sign * m[3])
Count == (x.rank = 2) => Cardinality(Independent(x.sy, 2, dim)) = (dim * (dim + x.s)) \div 2
=============================================================================
