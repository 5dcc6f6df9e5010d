---------------------------- MODULE CodepointArray ----------------------------
(***************************************************************************)
(* What a user believes a codepoint iterator is: an index into an array of *)
(* codepoints.  Cursor.tla (the octet level) is checked to refine this.    *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANT Cursors
VARIABLES arr,     \* the codepoints of the text; never changes
          idx,     \* idx[i]: 0..Len(arr), Len(arr) is the end
          obs      \* what the last operation returned

aVars == << arr, idx, obs >>
Nothing == << "none" >>

AInit == /\ idx = [ i \in Cursors |-> 0 ] /\ obs = Nothing
         /\ arr \in Seq(Nat)
ASeek(i) == /\ \E n \in 0 .. Len(arr) : idx' = [ idx EXCEPT ![i] = n ]
            /\ obs' = Nothing /\ UNCHANGED arr
AInc(i)  == /\ idx[i] < Len(arr) /\ idx' = [ idx EXCEPT ![i] = @ + 1 ]
            /\ obs' \in { << "at", idx[i] >>, << "at", idx[i] + 1 >> } /\ UNCHANGED arr
ADec(i)  == /\ idx[i] > 0 /\ idx' = [ idx EXCEPT ![i] = @ - 1 ]
            /\ obs' \in { << "at", idx[i] >>, << "at", idx[i] - 1 >> } /\ UNCHANGED arr
ACopy(i, j) == /\ idx' = [ idx EXCEPT ![i] = idx[j] ] /\ obs' = Nothing /\ UNCHANGED arr
ARead(i) == /\ idx[i] < Len(arr) /\ obs' = << "value", arr[idx[i] + 1] >> /\ UNCHANGED << arr, idx >>
(* through a reverse iterator: the element before *)
ARRead(i) == /\ idx[i] > 0 /\ obs' = << "value", arr[idx[i]] >> /\ UNCHANGED << arr, idx >>
AEq(i, j) == /\ obs' = << "bool", idx[i] = idx[j] >> /\ UNCHANGED << arr, idx >>
ANe(i, j) == /\ obs' = << "bool", idx[i] # idx[j] >> /\ UNCHANGED << arr, idx >>

ANext == \E i \in Cursors : \/ ASeek(i) \/ AInc(i) \/ ADec(i) \/ ARead(i) \/ ARRead(i)
                            \/ \E j \in Cursors : ACopy(i, j) \/ AEq(i, j) \/ ANe(i, j)
ASpec == AInit /\ [][ANext]_aVars
===============================================================================
