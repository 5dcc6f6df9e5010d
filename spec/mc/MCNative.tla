------------------------------- MODULE MCNative -------------------------------
(* all texts of a few codepoints of every size, apart by Step                *)
EXTENDS Native, TLC
CONSTANTS MaxLen
Letters == { 97, 233, 8364, 66376 }
NInit == /\ \E n \in 0 .. MaxLen : \E s \in [ 1 .. n -> Letters ] : t = EncodeAll(s)
         /\ at = 0 /\ p = 0 /\ val = 0 /\ want = 0
Spec == NInit /\ [][NNext]_nvars
===============================================================================
