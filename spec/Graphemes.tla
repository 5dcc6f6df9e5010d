----------------------------- MODULE Graphemes ------------------------------
(***************************************************************************)
(* Extended grapheme cluster boundaries, read pairwise as the library      *)
(* documents.  Classes are numbers (see Ucd!GcbNames):                     *)
(***************************************************************************)
EXTENDS Integers, Sequences

Other == 0  CR == 1  LF == 2  Control == 3  Extend == 4  Prepend == 5
SpacingMark == 6  L == 7  V == 8  T == 9  LV == 10  LVT == 11
RegionalIndicator == 12  EBase == 13  EModifier == 14  ZWJ == 15
GlueAfterZwj == 16  EBaseGaz == 17
GcbClass == 0 .. 17

(* The named rules of UAX #29 revision 29, applied to two adjacent classes *)
GB3(a, b)  == a = CR /\ b = LF
GB4(a, b)  == a \in {CR, LF, Control}
GB5(a, b)  == b \in {CR, LF, Control}
GB6(a, b)  == a = L /\ b \in {L, V, LV, LVT}
GB7(a, b)  == a \in {LV, V} /\ b \in {V, T}
GB8(a, b)  == a \in {LVT, T} /\ b = T
GB9(a, b)  == b \in {Extend, ZWJ}
GB9a(a, b) == b = SpacingMark
GB9b(a, b) == a = Prepend
(* Two deliberate readings of the library, documented in the code: only    *)
(* two adjacent codepoints are looked at, so                                *)
(*  - an Extend always joins a following E_Modifier (GB10 wants an E_Base   *)
(*    before the Extend), and                                               *)
(*  - regional indicators always join (GB12/13 pair them up).               *)
GB10Reading(a, b) == a \in {EBase, EBaseGaz, Extend} /\ b = EModifier
GB11(a, b) == a = ZWJ /\ b \in {GlueAfterZwj, EBaseGaz}
GB12Reading(a, b) == a = RegionalIndicator /\ b = RegionalIndicator

(* GB999: otherwise there is a boundary.  Rules are tried in order.         *)
ClassBoundary(a, b) ==
  IF GB3(a, b) THEN FALSE
  ELSE IF GB4(a, b) \/ GB5(a, b) THEN TRUE
  ELSE ~( \/ GB6(a, b) \/ GB7(a, b) \/ GB8(a, b) \/ GB9(a, b) \/ GB9a(a, b)
          \/ GB9b(a, b) \/ GB10Reading(a, b) \/ GB11(a, b) \/ GB12Reading(a, b) )

-----------------------------------------------------------------------------
(* Segmentation of a sequence of classes k; positions 0..Len(k) *)
IsBoundary(k, p) == p = 0 \/ p = Len(k) \/ ClassBoundary(k[p], k[p + 1])

(* start of the grapheme around position p < Len(k); end of it *)
RECURSIVE GStart(_, _), GEnd(_, _)
GStart(k, p) == IF IsBoundary(k, p) THEN p ELSE GStart(k, p - 1)
GEnd(k, p) == IF IsBoundary(k, p + 1) THEN p + 1 ELSE GEnd(k, p + 1)

RECURSIVE SegmentsFrom(_, _)
SegmentsFrom(k, p) == IF p >= Len(k) THEN << >>
                      ELSE << << p, GEnd(k, p) >> >> \o SegmentsFrom(k, GEnd(k, p))
Segments(k) == SegmentsFrom(k, 0)
=============================================================================
