-------------------------------- MODULE MCPages --------------------------------
(* pages cover the text in order, split no unit, and are as long as possible; *)
(* every text comes to its end                                                *)
EXTENDS Pages, FiniteSets
CONSTANTS MaxUnits, MaxSize, MaxLimit
VARIABLES limit, forced
vars == << pgvars, limit, forced >>
RECURSIVE Sums(_, _, _)
Sums(z, i, a) == IF i > Len(z) THEN << >> ELSE << a + z[i] >> \o Sums(z, i + 1, a + z[i])
Init == /\ \E n \in 0 .. MaxUnits : \E z \in [ 1 .. n -> 1 .. MaxSize ] : PInit(Sums(z, 1, 0))
        /\ limit \in 0 .. MaxLimit /\ forced = {}
Next == \/ Page(limit) /\ UNCHANGED << limit, forced >>
        \/ Forced(limit) /\ forced' = forced \cup { Len(pages) + 1 } /\ UNCHANGED limit
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Covers == /\ \A i \in 1 .. Len(pages) : pages[i][1] = (IF i = 1 THEN 0 ELSE pages[i - 1][2]) /\ pages[i][2] > pages[i][1]
          /\ at = (IF pages = << >> THEN 0 ELSE pages[Len(pages)][2])
Whole == \A i \in 1 .. Len(pages) : pages[i][2] \in Ends
Fits == \A i \in 1 .. Len(pages) : i \in forced \/ pages[i][2] - pages[i][1] <= limit
Alone == \A i \in forced : Cardinality({ p \in Ends : pages[i][1] < p /\ p <= pages[i][2] }) = 1
Longest == \A i \in 1 .. Len(pages) : ~\E p \in Ends : p > pages[i][2] /\ p - pages[i][1] <= limit
Done == <>(at = Total)
===============================================================================
