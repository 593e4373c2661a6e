--------------------------- MODULE CacheMapTrace ----------------------------
(* Histories of cache calls, judged against a plain map from full keys to    *)
(* values.  op: [o, k, v, r] with o in write/has/read/through/wipe.  For      *)
(* through, v is the value of a fresh computation; wipe: the user deletes    *)
(* the cache folder, with or without the folders above it.                   *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
RECURSIVE Walk(_, _, _)
Walk(m, h, i) ==
  IF i > Len(h) THEN ""
  ELSE LET e == h[i] IN
    CASE e.o = "write" -> Walk((e.k :> e.v) @@ m, h, i + 1)
      [] e.o = "has" -> IF e.r = (IF e.k \in DOMAIN m THEN "yes" ELSE "no") THEN Walk(m, h, i + 1)
                        ELSE "lookup of key #" \o e.k \o " says " \o e.r \o " at call " \o ToString(i)
      [] e.o = "read" -> IF e.r = (IF e.k \in DOMAIN m THEN m[e.k] ELSE "absent") THEN Walk(m, h, i + 1)
                         ELSE "read of key #" \o e.k \o " returns " \o e.r \o " at call " \o ToString(i)
      [] e.o = "through" -> IF e.r = e.v THEN Walk((e.k :> e.v) @@ m, h, i + 1)
                            ELSE "cached computation " \o e.k \o " returns " \o e.r \o " but fresh is " \o e.v
      [] e.o = "wipe" -> Walk(<<>>, h, i + 1)
      [] OTHER -> "unknown call"
Init == l = 0 /\ bad = {}
Next == /\ l < Len(Trace) /\ l' = l + 1
        /\ LET w == Walk(<<>>, Trace[l'].h, 1) IN
           bad' = IF w = "" THEN bad ELSE bad \cup (IF PrintT("BAD|" \o ToString(l') \o "|" \o w) THEN {l'} ELSE {})
Conforms == TRUE
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
