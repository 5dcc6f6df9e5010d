------------------------------ MODULE WriterTrace ------------------------------
(* Traces of writing sessions, checked against Writer. *)
EXTENDS Writer, TraceBase
VARIABLE skip
all == << wvars, tv, skip >>
TInit == TBInit /\ WInit(<< 0 >>, 0) /\ skip = TRUE
New(e) == /\ e.op = "wnew"
          /\ buf' = e.t /\ orig' = e.t /\ at' = e.p /\ from' = e.p
          /\ fresh' = TRUE /\ cp' = 0 /\ written' = << >>
TWrite(e) == e.op = "write" /\ Write(e.c) /\ buf' = e.t
TRead(e) == e.op = "wread" /\ ReadBack(e.v)
TInc(e) == e.op = "winc" /\ Advance /\ buf' = e.t /\ e.raw \in { -1, at' }
Accept(e) == New(e) \/ TWrite(e) \/ TRead(e) \/ TInc(e) \/ (IsEnd(e) /\ UNCHANGED wvars)
TNext == \/ /\ l <= TraceLen
            /\ IF skip /\ E0.op \notin { "wnew", "crash", "end" } THEN Good /\ UNCHANGED << wvars, skip >>
               ELSE IF ENABLED Accept(E0) THEN Accept(E0) /\ Good /\ skip' = FALSE
               ELSE Bad /\ skip' = TRUE /\ UNCHANGED wvars
         \/ Report /\ UNCHANGED << wvars, skip >>
TSpec == TInit /\ [][TNext]_all
===============================================================================
