------------------------------ MODULE CodepointTrace ------------------------------
(* Sessions with codepoint objects, checked against Codepoint. *)
EXTENDS TraceBase
VARIABLES val, skip
C == INSTANCE Codepoint WITH Objects <- 1 .. 4
all == << val, tv, skip >>
TInit == TBInit /\ C!CInit /\ skip = TRUE
New(e) == e.op = "cnew" /\ val' = [ o \in 1 .. 4 |-> 0 ]
Act(e) == \/ e.op = "cint" /\ C!FromInt(e.o, e.v[1])
          \/ e.op = "cdef" /\ C!Default(e.o)
          \/ e.op = "ccopy" /\ C!Copy(e.o, e.p)
          \/ e.op = "cchain" /\ C!Chain(e.o, e.p, e.v[1])
          \/ e.op = "cswap" /\ C!Swap(e.o, e.p)
          \/ e.op = "ccmp" /\ C!Look /\ e.cc = C!Compared(val[e.o], val[e.p])
                                    /\ e.ci = C!Compared(val[e.o], e.v[1]) /\ e.ic = C!Compared(e.v[1], val[e.o])
                                    /\ e.found = (\E q \in 1 .. 4 : val[q] = e.v[1])
Seen(e) == \A o \in 1 .. 4 : e.member[o] = val'[o] /\ e.conv[o] = val'[o] /\ e.arg[o] = val'[o]
Accept(e) == (New(e) \/ Act(e)) /\ Seen(e)
TNext == \/ /\ l <= TraceLen
            /\ IF E0.op \in { "end", "crash" } THEN (IF IsEnd(E0) THEN Good ELSE Bad) /\ UNCHANGED << val, skip >>
               ELSE IF skip /\ E0.op # "cnew" THEN Good /\ UNCHANGED << val, skip >>
               ELSE IF ENABLED Accept(E0) THEN Accept(E0) /\ Good /\ skip' = FALSE
               ELSE Bad /\ skip' = TRUE /\ UNCHANGED val
         \/ Report /\ UNCHANGED << val, skip >>
TSpec == TInit /\ [][TNext]_all
===============================================================================
