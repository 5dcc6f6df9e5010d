------------------------------- MODULE MCReach --------------------------------
(* passes over all texts of up to MaxLen codepoints, graphemes anyhow        *)
EXTENDS Reach, TLC
CONSTANTS MaxLen
RInit == \E m \in 0 .. MaxLen, k \in { "forward", "backward", "graphemes" } :
           \E C \in SUBSET (1 .. m - 1) :
             /\ k # "graphemes" => C = {}
             /\ Start(m, C \cup { 0, m }, k)
Spec == RInit /\ [][RNext]_rvars
===============================================================================
