------------------------------- MODULE MCBounds -------------------------------
EXTENDS Bounds, TLC, Json, IOUtils
CONSTANTS Octets, MaxOctets,       \* arbitrary octet strings, the range is all of it
          LongOctets, LongLen,     \* longer strings over fewer octets (walkback limit)
          Alphabet, MaxText        \* well-formed texts, every slice of them
Fns == { "check", "enforce" }
AllOf(S, max) == UNION { [ 1 .. k -> S ] : k \in 0 .. max }
Init == \E f \in Fns :
          \/ \E m \in AllOf(Octets, MaxOctets) : BInit(m, 0, Len(m), f)
          \/ \E m \in [ 1 .. LongLen -> LongOctets ] : BInit(m, 0, Len(m), f)
          \/ \E s \in AllOf(Alphabet, MaxText) : LET m == EncodeAll(s) IN
               \E l \in 0 .. Len(m) : \E h \in l .. Len(m) : BInit(m, l, h, f)
Emit == IF IOEnv.EMIT = "1" /\ pc' = "done"
        THEN PrintT("@" \o ToJson([ fn |-> fn, mem |-> orig, lo |-> lo, hi |-> hi,
                                    after |-> mem', res |-> res' ]))
        ELSE TRUE
Next == BNext /\ Emit
Spec == Init /\ [][Next]_bvars /\ WF_bvars(Next)
Terminates == <>Done
===============================================================================
