---------------------------- MODULE AdmBssnTrace ----------------------------
(* One record per grid point, taken from the generated code:                  *)
(*  k = "read": initial-data reader (with lambda where st is given);          *)
(*  k = "back": BSSN -> ADM;  k = "det": determinant enforcement;             *)
(*  k = "raise": T_mn -> T^mn;  k = "floor": lapse floor;                     *)
(*  k = "cov": vectors, covectors, tensors between grid and Cartesian basis.   *)
EXTENDS AdmBssn, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
Read(q) ==
  LET w == SameSlice(q) IN
  IF w # "" THEN w
  ELSE IF q.matter /\ ~SameMatter(q) THEN "stress-energy differs"
  ELSE IF q.lam = <<>> THEN ""
  ELSE IF q.lam # LambdaU(q.J, q.H, q.s, q.b.h, [k \in N3 |-> Central(q.fd, q.st[k], q.inv[k])]) THEN "lambda is not the conformal connection of h"
  ELSE ""
Judge(q) ==
  CASE q.k = "read" -> Read(q)
    [] q.k = "back" -> SameADM(q.form, q.J, q.s, q.b, q.adm)
    [] q.k = "det" -> IF ~GoodScale(q.J, q.s) THEN "scale factors are not those of the coordinate map"
                      ELSE IF q.rest THEN "a grid function other than hDD changes" ELSE Enforced(q.J, q.s, q.h0, q.h1)
    [] q.k = "raise" -> IF Lowered(q.al, q.be, Scale(Inv(Conf(q.form, q.cf)), Gbar(Id, <<1, 1, 1>>, q.h)), q.up) # q.dn THEN "raised stress-energy does not lower to the given one" ELSE ""
    [] q.k = "floor" -> IF q.new # (IF Pos(Sub(q.old, q.floor)) THEN q.old ELSE q.floor) THEN "lapse is not the larger of itself and the floor" ELSE ""
    [] q.k = "cov" -> IF MV(Tr(q.J), q.c[1]) # q.v THEN "covector from the grid basis to the Cartesian one" ELSE IF q.c[2] # MV(Tr(q.J), q.v) THEN "covector from the Cartesian basis to the grid's"
                        ELSE IF q.con[1] # MV(q.J, q.v) THEN "vector from the grid basis to the Cartesian one" ELSE IF MV(q.J, q.con[2]) # q.v THEN "vector from the Cartesian basis to the grid's"
                        ELSE IF Pull(q.J, q.dd[1]) # Mat3(LAMBDA i, j: q.T[i][j]) THEN "tensor with lower indices from the grid basis to the Cartesian one"
                        ELSE IF q.dd[2] # Pull(q.J, q.T) THEN "tensor with lower indices from the Cartesian basis to the grid's"
                        ELSE IF q.uu[1] # Push4(q.J, q.T) THEN "space-time tensor from the grid basis to the Cartesian one"
                        ELSE IF Push4(q.J, q.uu[2]) # q.T THEN "space-time tensor from the Cartesian basis to the grid's" ELSE ""
    [] OTHER -> "unknown record"
Init == l = 0 /\ bad = {}
Next == /\ l < Len(Trace) /\ l' = l + 1
        /\ LET w == Judge(Trace[l']) IN
           bad' = IF w = "" THEN bad ELSE bad \cup (IF PrintT("BAD|" \o ToString(l') \o "|" \o w) THEN {l'} ELSE {})
Conforms == TRUE
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
