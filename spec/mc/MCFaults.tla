------------------------------- MODULE MCFaults -------------------------------
EXTENDS Faults
CONSTANTS Units, MaxPieces, MaxPiece, MaxAgain, Keeps
Words(n) == UNION { [ 1 .. k -> Units ] : k \in 0 .. n }
Init == \E k \in 0 .. MaxPieces : \E ps \in [ 1 .. k -> Words(MaxPiece) ] : \E p \in Words(1) : FtInit(ps, p)
Finished == st = "done" \/ (st = "thrown" /\ again = MaxAgain)
Next == \/ Prepare \/ (\E n \in 1 .. MaxPiece + 2 : Move(n)) \/ Drop \/ Return \/ Fail(Keeps)
        \/ (again < MaxAgain /\ Again) \/ (Finished /\ UNCHANGED ftvars)
Spec == Init /\ [][Next]_ftvars /\ WF_ftvars(Next)
Terminates == <>Finished
OnlyAppends == [][Len(dest') >= Len(dest) \/ st = "thrown"]_ftvars
===============================================================================
