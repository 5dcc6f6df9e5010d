------------------------------- MODULE MCWriter -------------------------------
EXTENDS Writer, TLC, Json, IOUtils
CONSTANTS Alphabet, TextLen, Room
Texts == UNION { [ 1 .. n -> Alphabet ] : n \in 1 .. TextLen }
Spaces == { [ i \in 1 .. Room |-> 0 ], [ i \in 1 .. Room |-> 63 ] }
Init == \/ \E s \in Texts : \E p \in { q \in 0 .. Len(EncodeAll(s)) - 1 :
                                          StartOf(EncodeAll(s), q) = q } :
             WInit(EncodeAll(s), p)
        \/ \E b \in Spaces : WInit(b, 0)
Emit(op, c) ==
  IF IOEnv.EMIT = "1"
  THEN PrintT("@" \o ToJson([ op |-> op, orig |-> orig, from |-> from, w |-> written,
                              c |-> c, before |-> buf, after |-> buf', at |-> at' ]))
  ELSE TRUE
Next == \/ \E c \in Alphabet : Write(c) /\ Emit("write", c)
        \/ ReadBack(cp) /\ Emit("wread", cp)
        \/ Advance /\ Emit("winc", 0)
Spec == Init /\ [][Next]_wvars
===============================================================================
