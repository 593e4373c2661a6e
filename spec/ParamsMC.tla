------------------------------ MODULE ParamsMC ------------------------------
(* Exhaustive exploration of the registries over a small alphabet, and        *)
(* generation of one replayable history per transition of the state graph.   *)
EXTENDS Params, Json
CONSTANTS Depth, Emit
VARIABLES st, hist, last
vars == <<st, hist, last>>

Names == {"alpha", "beta"}
Vals  == {"i:1", "s:x"}
CP(ct, n, d, as, co, pf, sh, g) ==
  [op |-> "RegCP", ctype |-> ct, module |-> "m", name |-> n, default |-> d, assumption |-> as,
   common |-> co, parfile |-> pf, seth |-> sh, glb |-> g, desc |-> "D"]
ParOps ==
  {[op |-> "RegParam", ptype |-> t, module |-> m, name |-> n, value |-> v, desc |-> ""] :
      t \in {"int", "str", "list"}, m \in {"m1", "m2"}, n \in Names, v \in Vals}
  \cup {[op |-> "GetParam", prefix |-> p, name |-> n] : p \in {"", "m9::"}, n \in Names}
  \cup {[op |-> "SetParam", name |-> n, value |-> v] : n \in Names, v \in Vals \cup {"b:True"}}
CPOps ==
  {CP(ct, n, d, as, co, pf, sh, g) :
      ct \in {"REAL", "int[3]", "#define"}, n \in Names, d \in {"i:1", "s:unset"},
      as \in {"Real", "RealPositive", "Bogus"}, co \in BOOLEAN, pf \in BOOLEAN, sh \in BOOLEAN,
      g \in BOOLEAN}
  \cup {[op |-> "Adjust", name |-> n, value |-> v] : n \in Names, v \in Vals}
  \cup {[op |-> "RegCPs", ctype |-> "int", module |-> "g", names |-> ns, scalar |-> "i:7",
         defaults |-> ds, assumption |-> "Real", common |-> co, parfile |-> TRUE, seth |-> TRUE,
         glb |-> g, descs |-> de] :
         ns \in {<<>>, <<"alpha">>, <<"beta", "alpha">>}, ds \in {<<>>, <<"i:8">>, <<"i:8", "i:9">>},
         co \in BOOLEAN, g \in BOOLEAN, de \in {<<>>, <<"d1", "d2">>}}
Ops == ParOps \cup CPOps

Init == st = InitState /\ hist = <<>> /\ last = [op |-> "none"]
\* reset is the environment starting from fresh registries of one kind, so
\* that the two independent registries are also explored interleaved
Next == /\ Len(hist) < Depth
        /\ \E op \in Ops :
             LET a == Apply(st, op) IN
             /\ st' = a.st
             /\ hist' = Append(hist, op)
             /\ last' = [op |-> op.op, ok |-> a.res.ok, name |-> IF "name" \in DOMAIN op THEN op.name ELSE ""]
             /\ Emit => PrintT("H|" \o ToJson(hist'))
View == st
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
\* failed calls and lookups change nothing
FailureIsInert == [][~last'.ok \/ last'.op = "GetParam" => st' = st]_vars
\* entries are never removed, and calls touch only the registry they address
NeverRemoved == [][/\ DOMAIN st.par \subseteq DOMAIN st'.par
                   /\ DOMAIN st.cp \subseteq DOMAIN st'.cp]_vars
\* a registered generation-time parameter changes only its value, and only by Set
OnlySetChanges == [][\A n \in DOMAIN st.par :
                       st'.par[n] # st.par[n] =>
                          last'.op = "SetParam" /\ last'.name = n
                          /\ st'.par[n] = [st.par[n] EXCEPT !.value = st'.par[n].value]]_vars
\* a registered code parameter changes only through Adjust (its default) or a group registration
OnlyAdjustOrGroup == [][\A n \in DOMAIN st.cp :
                       st'.cp[n] # st.cp[n] =>
                          \/ last'.op = "RegCPs"
                          \/ last'.op = "Adjust" /\ last'.name = n
                             /\ st'.cp[n] = [st.cp[n] EXCEPT !.default = st'.cp[n].default]]_vars
Independent == [][/\ last'.op \in {"RegParam", "SetParam", "GetParam"} => st'.cp = st.cp
                  /\ last'.op \in {"RegCP", "RegCPs", "Adjust"} => st'.par = st.par]_vars
\* #define parameters are never run-time settable; a run-time settable one has a default
WellFormed == \A n \in DOMAIN st.cp :
                /\ st.cp[n].ctype = "#define" => ~st.cp[n].parfile /\ ~st.cp[n].seth
                /\ st.cp[n].parfile => st.cp[n].default # "s:unset"
                /\ st.cp[n].ctype \in ArrayTypes => st.cp[n].common /\ ~st.cp[n].seth
=============================================================================
