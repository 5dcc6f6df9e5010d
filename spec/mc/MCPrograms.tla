------------------------------ MODULE MCPrograms ------------------------------
(* chains of programs; used: was a compatibility form in the chain, and its last form *)
EXTENDS Programs, TLC
CONSTANTS Codepoints, Longest, Count, Chain
VARIABLES compat, last, stages
mvars == << prvars, compat, last, stages >>
Texts == UNION { [ 1 .. m -> Codepoints ] : m \in 0 .. Longest }
Init == /\ \E m \in 0 .. Count : \E ts \in [ 1 .. m -> Texts ] : PrInit(ts)
        /\ compat = FALSE /\ last = "" /\ stages = << >>
Next == /\ Len(stages) < Chain
        /\ \E p \in Programs :
             /\ Run(p, [ i \in 1 .. Len(passed) |-> Line(p, passed[i]) ])
             /\ stages' = Append(stages, p)
             /\ compat' = (compat \/ p \in { "kd", "kc" })
             /\ last' = IF p \in Forms4 THEN p ELSE last
Spec == Init /\ [][Next]_mvars
Whole == CASE last = "" -> "" [] last \in { "d", "kd" } -> IF compat THEN "kd" ELSE "d"
           [] OTHER -> IF compat THEN "kc" ELSE "c"
(* a chain is worth one program: the last form, with compatibility if any stage had it *)
ChainIsForm == \A i \in 1 .. Len(given) :
  passed[i] = IF Whole = "" THEN given[i] ELSE Form(Whole, given[i])
(* one line for each argument, whatever the others are *)
OneEach == Len(passed) = Len(given)
===============================================================================
