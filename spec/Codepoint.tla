------------------------------- MODULE Codepoint -------------------------------
(***************************************************************************)
(* Codepoint objects: each holds an integer and is interchangeable with it.*)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANT Objects
VARIABLES val
cpvars == << val >>
CInit == val = [ o \in Objects |-> 0 ]
(* constructed or assigned from an integer, from another object, default *)
FromInt(o, v) == val' = [ val EXCEPT ![o] = v ]
Default(o) == val' = [ val EXCEPT ![o] = 0 ]
Copy(o, p) == val' = [ val EXCEPT ![o] = val[p] ]
Chain(o, p, v) == val' = [ val EXCEPT ![o] = v, ![p] = v ]        \* o = p = v
Swap(o, p) == val' = [ val EXCEPT ![o] = val[p], ![p] = val[o] ]
Look == UNCHANGED val
(* what comparisons of a and b say: ==, !=, <, > *)
Compared(a, b) == << a = b, a # b, a < b, a > b >>
===============================================================================
