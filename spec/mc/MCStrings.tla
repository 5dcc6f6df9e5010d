------------------------------- MODULE MCStrings ------------------------------
EXTENDS Strings, TLC, Json, IOUtils
CONSTANTS Alphabet, MaxCps, MaxUnits, Enc
Texts == UNION { [ 1 .. m -> Alphabet ] : m \in 0 .. MaxCps }
Init == /\ enc = [ i \in Slots |-> Enc ]
        /\ obj \in [ Slots -> { Native(Enc, s) : s \in Texts } ] /\ act = << "init", 0 >>
Emit(op, i, j, p, q, s) ==
  IF IOEnv.EMIT = "1"
  THEN PrintT("@" \o ToJson([ enc |-> Enc, op |-> op, i |-> i, j |-> j, p |-> p, q |-> q, s |-> s,
                              a |-> obj, b |-> obj' ]))
  ELSE TRUE
Small == \A i \in Slots : Len(obj'[i]) <= MaxUnits
Next == LET i == 1 IN
        \/ Default(i) /\ Emit("default", i, i, 0, 0, << >>)
        \/ FromNative(i, obj[2]) /\ Emit("native", i, 2, 0, 0, << >>)
        \/ \E j \in Slots : \/ Assign(i, j) /\ Emit("assign", i, j, 0, 0, << >>)
                            \/ i # j /\ CopyFrom(i, j) /\ Emit("copy", i, j, 0, 0, << >>)
                            \/ i # j /\ \E s \in { t \in Texts : Len(t) < 2 } : Move(i, j, Native(Enc, s)) /\ Emit("move", i, j, 0, 0, Native(Enc, s))
                            \/ Swap(i, j) /\ Emit("swap", i, j, 0, 0, << >>)
                            \/ \E p, q \in Positions(j) :
                                 \/ AppendRange(i, j, p, q) /\ Small /\ Emit("append", i, j, p, q, << >>)
                                 \/ AppendGraphemes(i, j, p, q) /\ Small /\ Emit("appendg", i, j, p, q, << >>)
        \/ \E s \in Texts : AppendUtf32(i, s) /\ Small /\ Emit("append32", i, i, 0, 0, s)
        \/ \E p \in Positions(i), c \in Alphabet : Overwrite(i, p, c) /\ Emit("overwrite", i, i, p, 0, << c >>)
Spec == Init /\ [][Next]_sv
View == << enc, obj >>
===============================================================================
