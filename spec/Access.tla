-------------------------------- MODULE Access --------------------------------
(***************************************************************************)
(* The operations of a codepoint iterator over UTF-8 text at the grain of  *)
(* single octets: which octets each one reads.  Every larger operation     *)
(* (graphemes, appending, normalization) is made of these.  The text is    *)
(* well-formed, or any octets the bounds check accepts.  The octet at the  *)
(* end position belongs to somebody else; it may be looked at by some      *)
(* operations that begin there, and these need it to be no continuation    *)
(* octet: they could not tell the end from the inside of a codepoint.      *)
(***************************************************************************)
EXTENDS Utf8
VARIABLES t, endoct,        \* the text and the octet after it
          op, from, other,  \* the operation, the position it began at, the other iterator
          pc, pos, k, acc,  \* program counter, current position, octets to go, value or answer
          rd                \* positions read by the operation
avars == << t, endoct, op, from, other, pc, pos, k, acc, rd >>
At(p) == IF p \in 0 .. Len(t) - 1 THEN t[p + 1] ELSE IF p = Len(t) THEN endoct ELSE 128
Positions == 0 .. Len(t)
AInit(x, e) == /\ t = x /\ endoct = e /\ op = "none" /\ from = 0 /\ other = 0
               /\ pc = "idle" /\ pos = 0 /\ k = 0 /\ acc = 0 /\ rd = {}
(* what a caller may ask for *)
Legal(o, p) == CASE o \in { "read", "inc" } -> p < Len(t)
                 [] o = "dec" -> StartOf(t, p) > 0 /\ (p = Len(t) => ~IsCont(endoct))
                 [] o = "eq" -> TRUE
(* two iterators in the same place are equal, no octet is looked at *)
SamePlace(o, p, q) == o = "eq" /\ p = q
Start(o, p, q) == /\ pc = "idle" /\ Legal(o, p)
                  /\ o = "eq" /\ p = Len(t) /\ p # q => ~IsCont(endoct)
                  /\ op' = o /\ from' = p /\ other' = q /\ pos' = p /\ rd' = {}
                  /\ pc' = IF SamePlace(o, p, q) THEN "done" ELSE "seek"
                  /\ acc' = IF SamePlace(o, p, q) THEN 1 ELSE 0
                  /\ k' = 0 /\ UNCHANGED << t, endoct >>
Read(p) == rd' = rd \cup { p }
(* back to the first octet of the codepoint *)
Seek == /\ pc = "seek" /\ Read(pos)
        /\ IF IsCont(At(pos)) THEN pos' = pos - 1 /\ UNCHANGED << pc, k, acc >>
           ELSE CASE op = "inc" -> /\ pos' = pos + LeadSize(At(pos)) /\ pc' = "done" /\ UNCHANGED << k, acc >>
                  [] op = "dec" -> /\ pos' = pos - 1 /\ pc' = "seekback" /\ UNCHANGED << k, acc >>
                  [] op = "read" -> LET n == LeadSize(At(pos)) IN
                       /\ k' = n - 1 /\ pc' = "octets" /\ UNCHANGED pos
                       /\ acc' = At(pos) % (CASE n = 1 -> 128 [] n = 2 -> 32 [] n = 3 -> 16 [] OTHER -> 8)
                  [] op = "eq" -> /\ k' = LeadSize(At(pos)) /\ pc' = "compare" /\ UNCHANGED << pos, acc >>
        /\ UNCHANGED << t, endoct, op, from, other >>
SeekBack == /\ pc = "seekback" /\ Read(pos)
            /\ IF IsCont(At(pos)) THEN pos' = pos - 1 /\ UNCHANGED pc ELSE pc' = "done" /\ UNCHANGED pos
            /\ UNCHANGED << t, endoct, op, from, other, k, acc >>
(* the octets after the first *)
Octets == /\ pc = "octets"
          /\ IF k = 0 THEN pc' = "done" /\ UNCHANGED << pos, k, acc, rd >>
             ELSE /\ Read(pos + 1) /\ pos' = pos + 1 /\ k' = k - 1
                  /\ acc' = acc * 64 + (At(pos + 1) % 64) /\ UNCHANGED pc
          /\ UNCHANGED << t, endoct, op, from, other >>
(* positions only: nothing is read *)
Compare == /\ pc = "compare"
           /\ IF k = 0 THEN pc' = "done" /\ UNCHANGED << pos, k, acc >>
              ELSE IF pos = other THEN acc' = 1 /\ pc' = "done" /\ UNCHANGED << pos, k >>
              ELSE pos' = pos + 1 /\ k' = k - 1 /\ UNCHANGED << pc, acc >>
           /\ UNCHANGED << t, endoct, op, from, other, rd >>
Finish == pc = "done" /\ pc' = "idle" /\ rd' = {} /\ op' = "none" /\ pos' = 0 /\ from' = 0 /\ other' = 0 /\ k' = 0 /\ acc' = 0
          /\ UNCHANGED << t, endoct >>
ANext == \/ \E o \in { "read", "inc", "dec" }, p \in Positions : Start(o, p, 0)
         \/ \E p, q \in Positions : Start("eq", p, q)
         \/ Seek \/ SeekBack \/ Octets \/ Compare \/ Finish
-----------------------------------------------------------------------------
InsideText == rd \subseteq 0 .. Len(t)
EndOnlyFromEnd == Len(t) \in rd => from = Len(t)
(* walking forward never looks at the end position: the walk compares in   *)
(* front of the end, or in the end position with the end position          *)
ForwardStaysInside == op \in { "read", "inc" } \/ (op = "eq" /\ (from < Len(t) \/ other = from)) => Len(t) \notin rd
Done == pc = "done"
StaysInside == Done /\ op # "eq" => pos \in 0 .. Len(t)
RightAnswer == Done /\ WellFormed(t) =>
  CASE op = "read" -> acc = DecodeAt(t, StartOf(t, from))
    [] op = "inc" -> pos = NextPos(t, from)
    [] op = "dec" -> pos = PrevPos(t, from)
    [] op = "eq" -> acc = 1 <=> StartOf(t, from) = StartOf(t, other)
===============================================================================
