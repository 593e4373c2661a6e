----------------------------- MODULE CodegenMC ------------------------------
(* Small expressions over two symbols.  Checked: hoisting any operand into a *)
(* temporary does not change the value (common-subexpression elimination),   *)
(* and the fused vector identities the converter uses.  Emitted: the trees.  *)
EXTENDS Codegen, TLC, Json
CONSTANTS Emit, Deep
VARIABLES t
Leaf == {[o |-> "s", n |-> 1], [o |-> "s", n |-> 2]}
Num == {[o |-> "r", p |-> -1, q |-> 1], [o |-> "r", p |-> 2, q |-> 1], [o |-> "r", p |-> -2, q |-> 3]}
Expo == {<<2, 1>>, <<-1, 1>>, <<-2, 1>>, <<3, 1>>, <<6, 1>>, <<1, 2>>, <<-1, 2>>, <<-3, 2>>, <<1, 3>>}
L1 == Leaf \cup {[o |-> op, a |-> <<x, y>>] : op \in {"+", "*"}, x \in Leaf \cup Num, y \in Leaf}
      \cup {[o |-> "^", a |-> <<x>>, p |-> e[1], q |-> e[2]] : x \in Leaf, e \in Expo}
      \cup {[o |-> "f", f |-> g, a |-> <<[o |-> "+", a |-> <<[o |-> "s", n |-> 1], [o |-> "s", n |-> 2]>>]>>] : g \in {"sin", "exp"}}
L2 == {[o |-> op, a |-> <<x, y>>] : op \in {"+", "*"}, x \in L1, y \in L1}
      \cup {[o |-> "^", a |-> <<x>>, p |-> e[1], q |-> e[2]] : x \in {z \in L1 : z.o = "+"}, e \in Expo}
      \cup {[o |-> "+", a |-> <<[o |-> "*", a |-> <<n, x>>], y>>] : n \in Num, x \in L1, y \in L1}
L3 == {[o |-> "+", a |-> <<[o |-> "*", a |-> <<n, x, y>>], [o |-> "*", a |-> <<m, y, z>>], w>>] :
         n \in Num, m \in Num, x \in Leaf, y \in {u \in L1 : u.o = "^"}, z \in Leaf, w \in Leaf}
Init == t \in L1 \cup L2 \cup (IF Deep THEN L3 ELSE {})
Next == FALSE /\ UNCHANGED t
Spec == Init /\ [][Next]_t
Env == <<4321, 777>>
Hoist == "a" \in DOMAIN t =>
  \A i \in 1..Len(t.a) :
    Run(<<[t |-> t.a[i], to |-> 3], [t |-> [t EXCEPT !.a[i] = [o |-> "s", n |-> 3]], to |-> 0]>>, 1, Append(Env, 0)) = <<Eval(t, Env)>>
Fused == LET a == Eval(t, Env)  b == 1234  c == 4242  d == 999  e == 31  IN
  /\ Simd("FMA", a, b, c) = Add(Mul(a, b), c) /\ Simd("FMS", a, b, c) = Sub(Mul(a, b), c)
  /\ Simd("NFMA", a, b, c) = Simd("Sub", c, Mul(a, b), 0)
  /\ Simd("NFMS", a, b, c) = Simd("FMS", P - 1, Mul(a, b), c)
  /\ Simd("FMA", b, c, Simd("FMA", d, e, a)) = Add(a, Add(Mul(b, c), Mul(d, e)))
  /\ Simd("FMS", b, c, Simd("FMS", d, e, a)) = Add(a, Sub(Mul(b, c), Mul(d, e)))
  /\ Simd("FMS", b, c, Simd("FMA", d, e, a)) = Sub(Sub(Mul(b, c), Mul(d, e)), a)
  /\ Simd("FMA", b, c, Simd("FMS", d, e, a)) = Sub(Add(Mul(b, c), Mul(d, e)), a)
Laws == LET a == Eval(t, Env) IN
  /\ a # 0 => Mul(a, Inv(a)) = 1
  /\ Pos(a) => Mul(Root2(a), Root2(a)) = a /\ Pos(Root2(a))
  /\ Pw(Root3(a), 3) = a
  /\ a # 0 => (Pos(a) # Pos(Sub(0, a)))
Out == Emit => PrintT("H|" \o ToJson(t))
=============================================================================
