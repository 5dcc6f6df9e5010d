--------------------------- MODULE MCGraphemeCursor ---------------------------
EXTENDS GraphemeCursor, TLC, Json, IOUtils
CONSTANTS Classes, MaxLen
Starts0 == { Around(p) : p \in 0 .. EndPos }
Init == /\ \E m \in 0 .. MaxLen : k \in [ 1 .. m -> Classes ]
        /\ gr \in [ Iterators -> Starts0 ] /\ out = Nothing
Emit(op, p) ==
  IF IOEnv.EMIT = "1" /\ (op \in {"eq", "ne", "copy"} \/ gr[2] = Around(0))
  THEN PrintT("@" \o ToJson([ k |-> k, op |-> op, p |-> p, a |-> gr, b |-> gr', out |-> out' ]))
  ELSE TRUE
Next == \/ Begin(1) /\ Emit("begin", 0)
        \/ Finish(1) /\ Emit("end", 0)
        \/ IncPre(1) /\ Emit("inc", 0)
        \/ IncPost(1) /\ Emit("pinc", 0)
        \/ Deref(1) /\ Emit("deref", 0)
        \/ Copy(1, 2) /\ Emit("copy", 0)
        \/ Eq(1, 2) /\ Emit("eq", 0)
        \/ Ne(1, 2) /\ Emit("ne", 0)
        \/ \E p \in 0 .. EndPos : \/ Place(1, p) /\ Emit("place", p)
                                  \/ EqPos(1, p) /\ Emit("eqpos", p)
                                  \/ NePos(1, p) /\ Emit("nepos", p)
Spec == Init /\ [][Next]_gvars
View == << k, gr >>
===============================================================================
