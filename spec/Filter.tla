-------------------------------- MODULE Filter --------------------------------
(***************************************************************************)
(* u5e::filter: one action per call of the operation.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences
VARIABLES range,   \* the elements between the two iterators
          i,       \* elements handled so far
          calls,   \* << element, returned value >> of every call
          sum, fin
fvars == << range, i, calls, sum, fin >>
FInit(r) == range = r /\ i = 0 /\ calls = << >> /\ sum = 0 /\ fin = FALSE
(* the operation is handed element x and returns v *)
Call(x, v) == /\ ~fin /\ i < Len(range) /\ x = range[i + 1]
              /\ i' = i + 1 /\ calls' = Append(calls, << x, v >>) /\ sum' = sum + v
              /\ UNCHANGED << range, fin >>
Return(v) == /\ ~fin /\ i = Len(range) /\ v = sum /\ fin' = TRUE
             /\ UNCHANGED << range, i, calls, sum >>
RECURSIVE SumFrom(_, _)
SumFrom(s, n) == IF n > Len(s) THEN 0 ELSE s[n][2] + SumFrom(s, n + 1)
SumIsSum == sum = SumFrom(calls, 1)
OncePerElement == /\ Len(calls) = i
                  /\ \A n \in 1 .. i : calls[n][1] = range[n]
                  /\ fin => Len(calls) = Len(range)
===============================================================================
