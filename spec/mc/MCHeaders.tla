------------------------------- MODULE MCHeaders ------------------------------
(* all ways a few headers can be made that keep the rules; Without: a rule   *)
(* that need not be kept, for which TLC must find a program that fails       *)
EXTENDS Headers, TLC
CONSTANT Without
Lists == { << >> } \cup { << a >> : a \in H } \cup { s \in H \X H : s[1] # s[2] }
Bodies == { b \in [ H -> Lists ] : /\ \A h \in H : \A i \in 1 .. Len(b[h]) : b[h][i] # h
                                   /\ (Without = "cycles" \/ \A h \in H : h \notin Includes(b, h)) }
Uses(b) == { u \in [ H -> SUBSET H ] : \A h \in H : h \notin u[h] /\ (Without = "needs" \/ u[h] \subseteq Includes(b, h)) }
Guards == IF Without = "guards" THEN [ H -> H ] ELSE { [ h \in H |-> h ] }
Strong == IF Without = "strong" THEN SUBSET H ELSE { {} }
Init == /\ \E b \in Bodies : \E u \in Uses(b) : \E gd \in Guards : \E st \in Strong :
             g = [ guard |-> gd, body |-> b, uses |-> u, strong |-> st ]
        /\ HInit
(* what the four rules say of the headers chosen *)
Rules == /\ (Without = "guards" \/ DistinctGuards(g)) /\ (Without = "cycles" \/ NoCycle(g))
         /\ (Without = "needs" \/ SelfContained(g)) /\ (Without = "strong" \/ NothingStrong(g))
Spec == Init /\ [][HNext]_hvars
===============================================================================
