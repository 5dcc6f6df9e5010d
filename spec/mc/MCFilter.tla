------------------------------- MODULE MCFilter -------------------------------
EXTENDS Filter, TLC, Json, IOUtils
CONSTANTS Elements, MaxLen, Values
MCValues == { 0, 1, -2, 7 }
Init == \E m \in 0 .. MaxLen : \E r \in [ 1 .. m -> Elements ] : FInit(r)
Emit == IF IOEnv.EMIT = "1" THEN PrintT("@" \o ToJson([ range |-> range, calls |-> calls, sum |-> sum ])) ELSE TRUE
Next == \/ \E x \in Elements, v \in Values : Call(x, v)
        \/ Return(sum) /\ Emit
Spec == Init /\ [][Next]_fvars /\ WF_fvars(Next)
Terminates == <>fin
===============================================================================
