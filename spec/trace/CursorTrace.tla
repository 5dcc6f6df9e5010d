------------------------------ MODULE CursorTrace ------------------------------
(***************************************************************************)
(* Traces of sessions with codepoint iterators, checked against Cursor.    *)
(* Every line is one operation of the real code; it must be the action of  *)
(* the specification with the logged arguments and results.                *)
(***************************************************************************)
EXTENDS Cursor, TraceBase
VARIABLE skip
all == << vars, tv, skip >>
TInit == TBInit /\ text = << >> /\ pos = [ i \in Cursors |-> 0 ] /\ out = Nothing /\ skip = TRUE

New(e) == e.op = "new" /\ text' = e.t /\ pos' = [ i \in Cursors |-> 0 ] /\ out' = Nothing
(* a raw position in the log (-1: not visible) stands for the codepoint the specification expects *)
Rests(i, raw) == raw = -1 \/ (raw \in 0 .. End /\ StartOf(text, raw) = StartOf(text, pos'[i]))
Returns(raw) == raw = -1 \/ (raw \in 0 .. End /\ StartOf(text, raw) = StartOf(text, out'[2]))
Moved(e) == Rests(e.i, e.raw) /\ Returns(e.ret)
TSeek(e) == e.op = "seek" /\ Seek(e.i, e.p)
TInc(e)  == e.op = "inc" /\ IncPre(e.i) /\ Moved(e)
TPInc(e) == e.op = "pinc" /\ IncPost(e.i) /\ Moved(e)
TDec(e)  == e.op = "dec" /\ DecPre(e.i) /\ Moved(e)
TPDec(e) == e.op = "pdec" /\ DecPost(e.i) /\ Moved(e)
TCopy(e) == e.op = "copy" /\ Copy(e.i, e.j) /\ Rests(e.i, e.raw)
TRead(e) == e.op = "read" /\ Read(e.i, pos[e.i]) /\ out'[2] = e.v /\ Rests(e.i, e.raw)
TRRead(e) == e.op = "rread" /\ RRead(e.i) /\ out'[2] = e.v /\ Rests(e.i, e.raw)
TEq(e)   == e.op = "eq" /\ Eq(e.i, e.j) /\ out'[2] = e.eq /\ e.ne = ~e.eq
Reverse(s) == TLCEval([ i \in 1 .. Len(s) |-> s[Len(s) + 1 - i] ])
(* a walk over the whole text is the composition of Read and Inc (Dec) steps *)
TWalk(e) == /\ e.op = "walk"
            /\ LET d == DecodeAll(text) IN
               e.pre = d /\ e.post = d /\ e.back = Reverse(d) /\ e.rev = Reverse(d) /\ e.dist = Len(d)
            /\ e.t = text /\ UNCHANGED vars
(* everything from every position: pairs of Seek followed by one operation *)
TEvery(e) ==
  /\ e.op = "every"
  /\ LET t == e.t  n == Len(e.t) IN
     /\ WellFormed(t)
     /\ Len(e.rd) = n /\ Len(e.nx) = n /\ Len(e.pv) = n + 1 /\ Len(e.rr) = n + 1 /\ Len(e.eq) = n + 1
     /\ \A p \in 0 .. n - 1 :
          /\ e.rd[p + 1] = DecodeAt(t, StartOf(t, p))
          /\ e.nx[p + 1] = IF NextPos(t, p) = n THEN -1 ELSE DecodeAt(t, NextPos(t, p))
     /\ \A p \in 0 .. n :
          LET x == IF StartOf(t, p) = 0 THEN -1 ELSE DecodeAt(t, PrevPos(t, p))
          IN e.pv[p + 1] = x /\ e.rr[p + 1] = x
     /\ \A p, q \in 0 .. n :
          e.eq[p + 1][q + 1] = IF StartOf(t, p) = StartOf(t, q) THEN 1 ELSE 2
  /\ UNCHANGED vars
Accept(e) == \/ New(e) \/ TSeek(e) \/ TInc(e) \/ TPInc(e) \/ TDec(e) \/ TPDec(e) \/ TCopy(e)
             \/ TRead(e) \/ TRRead(e) \/ TEq(e) \/ TWalk(e) \/ TEvery(e)
             \/ (IsEnd(e) /\ UNCHANGED vars)
Starts0(e) == e.op \in { "new", "every", "crash", "end" }
TNext == \/ /\ l <= TraceLen
            /\ IF skip /\ ~Starts0(E0) THEN Good /\ UNCHANGED << vars, skip >>
               ELSE IF ENABLED Accept(E0) THEN Accept(E0) /\ Good /\ skip' = FALSE
               ELSE Bad /\ skip' = TRUE /\ UNCHANGED vars
         \/ Report /\ UNCHANGED << vars, skip >>
TSpec == TInit /\ [][TNext]_all
===============================================================================
