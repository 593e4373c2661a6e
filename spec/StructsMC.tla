------------------------------ MODULE StructsMC -----------------------------
EXTENDS Structs, TLC, Json
CONSTANTS Emit
VARIABLES p, only
Kinds == [ty : {"REAL", "int", "bool", "char", "define", "float", "size_t", "double"}, n : {0, 1, 3},
          common : BOOLEAN, hdr : BOOLEAN, file : BOOLEAN, dset : BOOLEAN]
Sane(q) == /\ Legal(q)
           /\ q.ty = "char" => q.n > 0
           /\ q.ty \in {"bool", "define", "float", "size_t"} => q.n = 0
           /\ q.ty = "define" => q.dset /\ ~q.hdr /\ ~q.file
Init == p \in {q \in Kinds : Sane(q)} /\ only \in BOOLEAN
Next == FALSE /\ UNCHANGED <<p, only>>
Spec == Init /\ [][Next]_<<p, only>>
H == {"ptr", "nop", "simd"}
OnePlace == Cardinality({s \in {"commondata", "params"} : StructOf(p) = s}) = (IF p.ty = "define" THEN 0 ELSE 1)
SimdSub == Visible(p, "simd", only) => Visible(p, "ptr", only)
SamePtr == Visible(p, "ptr", only) = Visible(p, "nop", only)
OnlyCommon == \A h \in H : only /\ Visible(p, h, only) => StructOf(p) = "commondata"
Out == Emit => PrintT("H|" \o ToJson([p |-> p, only |-> only]))
=============================================================================
