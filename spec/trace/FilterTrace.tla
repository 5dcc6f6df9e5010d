------------------------------ MODULE FilterTrace ------------------------------
(* Traces of u5e::filter, checked against Filter. *)
EXTENDS Filter, TraceBase
VARIABLE skip
all == << fvars, tv, skip >>
TInit == TBInit /\ FInit(<< >>) /\ skip = TRUE
New(e) == /\ e.op = "fstart"
          /\ range' = e.range /\ i' = 0 /\ calls' = << >> /\ sum' = 0 /\ fin' = FALSE
TCall(e) == e.op = "fcall" /\ Call(e.x, e.v)
TReturn(e) == e.op = "fret" /\ Return(e.v) /\ e.same /\ e.unchanged
Accept(e) == New(e) \/ TCall(e) \/ TReturn(e)
(* a long range: the unit u over and over *)
LongOk(e) == /\ e.same /\ e.calls = Len(e.u) * e.times
             /\ Len(e.first) = Len(e.u) /\ \A n \in 1 .. Len(e.u) : e.first[n][1] = e.u[n]
             /\ e.ret = SumFrom(e.first, 1) * e.times
Alone(e) == CASE e.op = "flong" -> LongOk(e) [] e.op = "end" -> IsEnd(e) [] OTHER -> FALSE
IsAlone(e) == e.op \in { "flong", "end", "crash", "frunaway" }
TNext == \/ /\ l <= TraceLen
            /\ IF IsAlone(E0) THEN (IF Alone(E0) THEN Good ELSE Bad) /\ UNCHANGED << fvars, skip >>
               ELSE IF skip /\ E0.op # "fstart" THEN Good /\ UNCHANGED << fvars, skip >>
               \* a new run only after the previous one returned
               ELSE IF (E0.op = "fstart" => skip \/ fin) /\ ENABLED Accept(E0) THEN Accept(E0) /\ Good /\ skip' = FALSE
               ELSE Bad /\ skip' = TRUE /\ UNCHANGED fvars
         \/ Report /\ UNCHANGED << fvars, skip >>
TSpec == TInit /\ [][TNext]_all
===============================================================================
