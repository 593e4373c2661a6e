------------------------------- MODULE Params -------------------------------
(* The two parameter registries: generation-time parameters (set/get) and    *)
(* run-time "code parameters" (registered once, default adjustable).         *)
(* Apply(st, op) is the sequential meaning of one public call; every caller  *)
(* observes res.  All parameter values are strings tagged with their type.   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

EmptyFn == [x \in {} |-> {}]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

ValidPyTypes == {"bool", "int", "float", "str"}
ArrayTypes   == {"REAL[5]", "int[3]"}          \* the array types the drivers use
Assumptions  == {"Real", "RealPositive"}

Ok(v)  == [ok |-> TRUE,  val |-> v]
Err(e) == [ok |-> FALSE, val |-> e]

InitState == [par |-> EmptyFn, cp |-> EmptyFn]

--------------------------------------------------------------------------------
(* generation-time parameters *)
RegParam(st, op) ==
  IF op.ptype \notin ValidPyTypes THEN [st |-> st, res |-> Err("ValueError")]
  ELSE IF op.name \in DOMAIN st.par THEN [st |-> st, res |-> Ok("None")]   \* first registration wins
  ELSE [st |-> [st EXCEPT !.par = Put(@, op.name,
                [ptype |-> op.ptype, module |-> op.module, value |-> op.value, desc |-> op.desc])],
        res |-> Ok("None")]

GetParam(st, op) ==   \* op.prefix ("" or "mod::") plays no role
  IF op.name \in DOMAIN st.par THEN [st |-> st, res |-> Ok(st.par[op.name].value)]
  ELSE [st |-> st, res |-> Err("ValueError")]

SetParam(st, op) ==
  IF op.name \in DOMAIN st.par
  THEN [st |-> [st EXCEPT !.par[op.name].value = op.value], res |-> Ok("None")]
  ELSE [st |-> st, res |-> Err("ValueError")]

--------------------------------------------------------------------------------
(* run-time code parameters *)
CPError(c) ==
  \/ c.ctype \in ArrayTypes /\ ~(c.common /\ ~c.seth)
  \/ c.ctype # "#define" /\ c.parfile /\ c.default = "s:unset"
  \/ c.assumption \notin Assumptions

CPRecord(c) ==
  [ctype |-> c.ctype, module |-> c.module, default |-> c.default, assumption |-> c.assumption,
   parfile |-> c.parfile /\ c.ctype # "#define", seth |-> c.seth /\ c.ctype # "#define",
   common |-> c.common, desc |-> c.desc,
   symbol |-> c.name \o (IF c.assumption = "RealPositive" THEN "+" ELSE "")]

\* single registration: first registration wins
RegCP(st, op) ==
  IF CPError(op) THEN [st |-> st, res |-> Err("ValueError")]
  ELSE LET r == CPRecord(op) IN
       [st |-> IF op.glb /\ op.name \notin DOMAIN st.cp
               THEN [st EXCEPT !.cp = Put(@, op.name, r)] ELSE st,
        res |-> Ok(r.symbol)]

\* group registration: the latest group registration wins
GroupElem(op, i) ==
  [ctype |-> op.ctype, module |-> op.module, name |-> op.names[i],
   default |-> IF Len(op.defaults) = 0 THEN op.scalar ELSE op.defaults[i],
   assumption |-> op.assumption, common |-> op.common, parfile |-> op.parfile,
   seth |-> op.seth, glb |-> op.glb,
   desc |-> IF Len(op.descs) = 0 THEN "" ELSE op.descs[i]]

RECURSIVE PutAll(_, _, _)
PutAll(f, op, i) ==
  IF i > Len(op.names) THEN f
  ELSE PutAll(Put(f, op.names[i], CPRecord(GroupElem(op, i))), op, i + 1)

RegCPs(st, op) ==
  IF \/ Len(op.names) = 0
     \/ Len(op.defaults) # 0 /\ Len(op.defaults) # Len(op.names)
     \/ Len(op.descs) # 0 /\ Len(op.descs) # Len(op.names)
  THEN [st |-> st, res |-> Err("ValueError")]
  ELSE IF \E i \in 1..Len(op.names) : CPError(GroupElem(op, i))
  THEN [st |-> st, res |-> Err("ValueError")]
  ELSE [st |-> IF op.glb THEN [st EXCEPT !.cp = PutAll(@, op, 1)] ELSE st,
        res |-> [ok |-> TRUE, val |-> [i \in 1..Len(op.names) |-> CPRecord(GroupElem(op, i)).symbol]]]

Adjust(st, op) ==
  IF op.name \in DOMAIN st.cp
  THEN [st |-> [st EXCEPT !.cp[op.name].default = op.value], res |-> Ok("None")]
  ELSE [st |-> st, res |-> Err("ValueError")]

Apply(st, op) ==
  CASE op.op = "RegParam" -> RegParam(st, op)
    [] op.op = "GetParam" -> GetParam(st, op)
    [] op.op = "SetParam" -> SetParam(st, op)
    [] op.op = "RegCP"    -> RegCP(st, op)
    [] op.op = "RegCPs"   -> RegCPs(st, op)
    [] op.op = "Adjust"   -> Adjust(st, op)
=============================================================================
