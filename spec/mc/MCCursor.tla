------------------------------- MODULE MCCursor -------------------------------
(* Exhaustive exploration of Cursor over all short texts of an alphabet    *)
(* with one codepoint of every encoded size; every transition can be       *)
(* printed as one test for the real code (EMIT=1).                         *)
EXTENDS Cursor, TLC, Json, IOUtils
CONSTANTS Alphabet, MaxLen
Texts == UNION { [ 1 .. n -> Alphabet ] : n \in 0 .. MaxLen }
Init == /\ \E s \in Texts : text = EncodeAll(s)
        /\ pos \in [ Cursors -> 0 .. End ] /\ out = Nothing
Emit(op, i, j) ==
  IF IOEnv.EMIT = "1" /\ (i # j \/ pos[2] = 0)
  THEN PrintT("@" \o ToJson([ t |-> text, op |-> op, i |-> i, j |-> j,
                              a |-> [ c \in Cursors |-> pos[c] ],
                              b |-> [ c \in Cursors |-> pos'[c] ], out |-> out' ]))
  ELSE TRUE
First == 1
(* Iterators start anywhere (all Seek results are initial states); the     *)
(* second one is only the "other" operand.                                 *)
Next == \/ IncPre(First)  /\ Emit("inc", 1, 1)
        \/ IncPost(First) /\ Emit("pinc", 1, 1)
        \/ DecPre(First)  /\ Emit("dec", 1, 1)
        \/ DecPost(First) /\ Emit("pdec", 1, 1)
        \/ Read(First, pos[First]) /\ Emit("read", 1, 1)
        \/ Read(First, Start(First))
        \/ RRead(First) /\ Emit("rread", 1, 1)
        \/ Copy(1, 2) /\ Emit("copy", 1, 2)
        \/ Eq(1, 2) /\ Emit("eq", 1, 2)
        \/ Ne(1, 2) /\ Emit("ne", 1, 2)
Spec == Init /\ [][Next]_vars
View == << text, pos >>

A == INSTANCE CodepointArray WITH arr <- DecodeAll(text), idx <- AbsIdx, obs <- AbsOut
(* A!ASpec without the (unbounded) initial arr: step refinement *)
Refines == [][A!ANext]_<< DecodeAll(text), AbsIdx, AbsOut >>
IncDecInverse == \A i \in Cursors : ~AtEnd(i) => PrevPos(text, NextPos(text, pos[i])) = Start(i)
EqualIsSameIndex == \A i, j \in Cursors : (Start(i) = Start(j)) = (Index(pos[i]) = Index(pos[j]))
TextWellFormed == WellFormed(text)
===============================================================================
