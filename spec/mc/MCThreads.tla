------------------------------- MODULE MCThreads ------------------------------
EXTENDS Threads, TLC
JobSet == { << "d", << 7785, 803 >> >>, << "c", << 115, 775, 803 >> >>, << "kc", << 64257 >> >>, << "kd", << 44033, 8491 >> >> }
Init == \E js \in [ Thread -> [ 1 .. 2 -> JobSet ] ] : TInit(js)
Spec == Init /\ [][TNext]_tvars /\ WF_tvars(TNext)
Terminates == <>AllDone
===============================================================================
