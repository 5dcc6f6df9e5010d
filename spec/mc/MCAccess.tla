-------------------------------- MODULE MCAccess ------------------------------
EXTENDS Access
CONSTANTS Alphabet, MaxCps, EndOctets, CutShort,
          AnyOctets, MaxLen       \* for texts of any octets
Texts == { EncodeAll(s) : s \in UNION { [ 1 .. m -> Alphabet ] : m \in 0 .. MaxCps } }
(* mutant: texts cut inside a codepoint are not what the property is about *)
Cut(x) == IF CutShort /\ Len(x) > 0 THEN Slice(x, 0, Len(x) - 1) ELSE x
Init == \E x \in Texts, e \in EndOctets : AInit(Cut(x), e)
(* any octets the bounds check accepts *)
Accepted == { x \in UNION { [ 1 .. m -> AnyOctets ] : m \in 0 .. MaxLen } : BoundsOk(x) }
InitAny == \E x \in Accepted, e \in EndOctets : AInit(x, e)
SpecAny == InitAny /\ [][ANext]_avars
Spec == Init /\ [][ANext]_avars /\ WF_avars(Seek \/ SeekBack \/ Octets \/ Compare \/ Finish)
Terminates == pc # "idle" ~> pc = "idle"
===============================================================================
