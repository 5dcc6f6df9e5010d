------------------------------ MODULE MCGenerate -------------------------------
(* all databases over a few codepoints whose mappings lead to smaller ones *)
EXTENDS Generate
CONSTANTS N, MaxLen
Seqs(S) == UNION { [ 1 .. n -> S ] : n \in 1 .. MaxLen }
Maps(D) == { m \in [ D -> Seqs(0 .. N - 1) ] : \A c \in D : \A i \in 1 .. Len(m[c]) : m[c][i] < c }
Unique(m) == \A c, e \in DOMAIN m : c # e /\ Len(m[c]) = 2 => m[c] # m[e]
Bases == UNION { { [ map |-> m, ccc |-> z, compat |-> k, excl |-> x ] :
                     m \in { m \in Maps(D) : Unique(m) }, k \in SUBSET D, x \in { {}, { N } }, z \in { [ c \in 0 .. N |-> 0 ], [ c \in 0 .. N |-> IF c = 1 THEN 230 ELSE 0 ] } } :
                 D \in SUBSET (1 .. N) }
MInit == GInit(Bases)
Spec == MInit /\ [][GNext]_gvars /\ WF_gvars(GNext)
===============================================================================
