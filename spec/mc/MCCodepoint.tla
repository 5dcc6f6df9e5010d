------------------------------- MODULE MCCodepoint -------------------------------
(* objects keep their values but for the one an action names; comparison is  *)
(* that of the values                                                        *)
EXTENDS Codepoint, FiniteSets
CONSTANT Values
Vals == { -1, 0, 1, 65, 1114111, 1114112 }
Next == \/ \E o \in Objects, v \in Values : FromInt(o, v)
        \/ \E o \in Objects : Default(o)
        \/ \E o, p \in Objects : Copy(o, p) \/ Swap(o, p)
        \/ \E o, p \in Objects, v \in Values : Chain(o, p, v)
        \/ Look
Spec == CInit /\ [][Next]_cpvars
Typed == val \in [ Objects -> Values \cup { 0 } ]
OneLeft == [][Cardinality({ o \in Objects : val'[o] # val[o] }) <= 2]_cpvars
Order == \A a, b \in Objects : LET c == Compared(val[a], val[b]) IN
           Cardinality({ i \in { 1, 3, 4 } : c[i] }) = 1 /\ c[2] = ~c[1]
===============================================================================
