------------------------------ MODULE MCPipeline ------------------------------
EXTENDS Pipeline, TLC, Json, IOUtils
CONSTANTS Pairs, Triples, PairLen, TripleLen
Texts == UNION { [ 1 .. m -> Pairs ] : m \in 0 .. PairLen } \cup [ 1 .. TripleLen -> Triples ]
Forms == IF IOEnv.FORM = "all" THEN { "d", "c", "kd", "kc" } ELSE { IOEnv.FORM }
Init == \E f \in Forms : \E s \in Texts : PInit(f, s, << 46, 46 >>)
(* the result of every run, to be replayed in the code *)
Emit == IF phase # "done" /\ phase' = "done" /\ IOEnv.EMIT = "1"
        THEN PrintT("@" \o ToJson([ f |-> form, s |-> src, pre |-> pre, out |-> out, cnt |-> cnt ]))
        ELSE TRUE
Next == PNext /\ Emit
Spec == Init /\ [][Next]_pvars /\ WF_pvars(Next)
Terminates == <>Finished
(* C26 on the definitions themselves, for every text explored *)
Laws == Finished =>
  /\ NFD(NFD(src)) = NFD(src) /\ NFC(NFC(src)) = NFC(src)
  /\ NFKD(NFKD(src)) = NFKD(src) /\ NFKC(NFKC(src)) = NFKC(src)
  /\ NFD(NFC(src)) = NFD(src) /\ NFC(NFD(src)) = NFC(src)
  /\ NFKD(NFD(src)) = NFKD(src) /\ NFKC(NFC(src)) = NFKC(src)
PiecewiseIsWhole == Finished =>
  \/ PiecewiseForm(form, src) = Form(form, src)
  \/ form = "kc" /\ CompatJamoGap(src)
===============================================================================
