------------------------------ MODULE MCOctetRuns -----------------------------
EXTENDS OctetRuns
CONSTANTS Octets, Times, MaxRuns
VARIABLES rs
Init == rs = << >>
Next == /\ Len(rs) < MaxRuns
        /\ \E c \in Octets, k \in Times : rs' = Append(rs, << c, k >>)
Spec == Init /\ [][Next]_rs
Text == OWritten(rs, 1)
SameCheck == ORunsOk(rs) = BoundsOk(Text)
SameRepair == ORepaired(rs) = OCollapse(Alone(Repaired(Text)), 1, << >>)
SameTotal == OTotal(rs, Len(rs)) = Len(Text)
===============================================================================
