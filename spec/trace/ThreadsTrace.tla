------------------------------ MODULE ThreadsTrace -----------------------------
(***************************************************************************)
(* The same calls made alone in a fresh process, after other calls, and by *)
(* several threads at once.  As in Threads (AsIfAlone): every result must  *)
(* be the one the caller gets alone.                                       *)
(***************************************************************************)
EXTENDS TraceBase
VARIABLE memo      \* what each call gives alone
AloneOk(e) == e.job = Len(memo) + 1
CalledOk(e) == e.job \in 1 .. Len(memo) /\ e.times > 0 /\ memo[e.job].ok /\ e.res = memo[e.job].res
(* a call that fails even alone is not what this property is about, nor is *)
(* one that does not come to an end: memory errors and wrong results are   *)
(* decided elsewhere                                                        *)
Ok(e) == CASE e.op = "alone" -> AloneOk(e)
           [] e.op = "called" -> CalledOk(e)
           [] e.op = "race" -> FALSE
           [] e.op = "end" -> IsEnd(e)
           [] OTHER -> FALSE
TNext == \/ /\ l <= TraceLen
            /\ IF Ok(E0) THEN Good ELSE Bad
            /\ memo' = IF E0.op = "alone" THEN Append(memo, [ ok |-> E0.ok, res |-> E0.res ]) ELSE memo
         \/ Report /\ UNCHANGED memo
TSpec == TBInit /\ memo = << >> /\ [][TNext]_<< tv, memo >>
===============================================================================
