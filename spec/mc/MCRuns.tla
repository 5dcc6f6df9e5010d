-------------------------------- MODULE MCRuns --------------------------------
EXTENDS Runs
CONSTANTS Alphabet, MaxRuns, MaxTimes
VARIABLES rs
Init == rs = << >>
Next == /\ Len(rs) < MaxRuns
        /\ \E c \in Alphabet, k \in 1 .. MaxTimes : rs' = Append(rs, << c, k >>)
Spec == Init /\ [][Next]_rs
Text == Written(rs)
K == ClassesOf(Text)
SameSegments ==
  /\ Total(rs) = Len(Text)
  /\ RGraphemes(rs) = Len(Segments(K))
  /\ \A p \in 0 .. Len(Text) - 1 : RBegin(rs, p) = GStart(K, p) /\ REnd(rs, p) = GEnd(K, p)
SameForms == \A f \in { "d", "c", "kd", "kc" } :
  RunsOk(rs, f \in { "kd", "kc" }) => RunsForm(f, rs) = RunsOf(Form(f, Text), 1, << >>)
Back == RunsOf(Text, 1, << >>) = Collapse(rs)
===============================================================================
