---------------------------- MODULE MCGraphemeSeek ----------------------------
EXTENDS GraphemeSeek
CONSTANTS Classes, MaxLen
Init == \E m \in 0 .. MaxLen : \E ks \in [ 1 .. m -> Classes ] :
          \E p \in 0 .. m : SeekInit(ks, p)
Spec == Init /\ [][SeekNext]_svars /\ WF_svars(SeekNext)
Terminates == <>Done
===============================================================================
