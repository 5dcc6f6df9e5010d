-------------------------------- MODULE Threads -------------------------------
(***************************************************************************)
(* Several threads normalize their own texts at once.  The tables are      *)
(* shared and never written; every call has a scratch buffer of its own.   *)
(* Each thread handles a list of jobs << form, text >> one after another,  *)
(* at the grain of the code: decompose one codepoint, order, compose,      *)
(* append.  (SharedScratch = TRUE is a mutant: one buffer for all.)        *)
(***************************************************************************)
EXTENDS Normal
CONSTANTS Thread, SharedScratch
VARIABLES jobs,     \* jobs[t]: what t has to do
          j,        \* j[t]: the job it is at
          phase, ci, scratch, results
tvars == << jobs, j, phase, ci, scratch, results >>
Slot(t) == IF SharedScratch THEN "all" ELSE t
Buf(t) == scratch[Slot(t)]
SetBuf(t, v) == scratch' = [ scratch EXCEPT ![Slot(t)] = v ]
TInit(js) == /\ jobs = js /\ j = [ t \in Thread |-> 1 ]
             /\ phase = [ t \in Thread |-> "idle" ] /\ ci = [ t \in Thread |-> 0 ]
             /\ scratch = [ x \in Thread \cup { "all" } |-> << >> ]
             /\ results = [ t \in Thread |-> << >> ]
Job(t) == jobs[t][j[t]]
Go(t, p) == phase' = [ phase EXCEPT ![t] = p ]
Start(t) == /\ phase[t] = "idle" /\ j[t] <= Len(jobs[t])
            /\ SetBuf(t, << >>) /\ ci' = [ ci EXCEPT ![t] = 0 ] /\ Go(t, "decompose")
            /\ UNCHANGED << jobs, j, results >>
Decompose(t) == /\ phase[t] = "decompose" /\ ci[t] < Len(Job(t)[2])
                /\ SetBuf(t, Buf(t) \o FullDecomposition(Job(t)[2][ci[t] + 1], Job(t)[1] \in { "kd", "kc" }))
                /\ ci' = [ ci EXCEPT ![t] = @ + 1 ] /\ UNCHANGED << jobs, j, phase, results >>
Order(t) == /\ phase[t] = "decompose" /\ ci[t] = Len(Job(t)[2])
            /\ SetBuf(t, CanonicalOrder(Buf(t))) /\ Go(t, "compose")
            /\ UNCHANGED << jobs, j, ci, results >>
ComposeStep(t) == /\ phase[t] = "compose"
                  /\ IF Job(t)[1] \in { "c", "kc" } THEN SetBuf(t, Compose(Buf(t))) ELSE UNCHANGED scratch
                  /\ Go(t, "append") /\ UNCHANGED << jobs, j, ci, results >>
Append1(t) == /\ phase[t] = "append"
              /\ results' = [ results EXCEPT ![t] = Append(@, Buf(t)) ]
              /\ j' = [ j EXCEPT ![t] = @ + 1 ] /\ Go(t, "idle")
              /\ UNCHANGED << jobs, ci, scratch >>
TNext == \E t \in Thread : Start(t) \/ Decompose(t) \/ Order(t) \/ ComposeStep(t) \/ Append1(t)
(* C29: every result is what the thread would have got alone *)
AsIfAlone == \A t \in Thread : \A n \in 1 .. Len(results[t]) :
               results[t][n] = Form(jobs[t][n][1], jobs[t][n][2])
AllDone == \A t \in Thread : j[t] > Len(jobs[t])
===============================================================================
