---------------------------- MODULE GraphemeCursor ----------------------------
(***************************************************************************)
(* Grapheme iterators over one text.  One action per operation of          *)
(* basic_grapheme_iterator; the loops inside are GraphemeSeek.tla.         *)
(***************************************************************************)
EXTENDS Graphemes
CONSTANT Iterators
VARIABLES k,        \* classes of the codepoints of the text
          gr,       \* gr[i] = << start, end >> of the grapheme it denotes
          out       \* what the last operation returned
gvars == << k, gr, out >>
EndPos == Len(k)
Nothing == << "none" >>
(* the grapheme around position p; the end iterator is << EndPos, EndPos >> *)
Around(p) == IF p = EndPos THEN << EndPos, EndPos >> ELSE << GStart(k, p), GEnd(k, p) >>
AtEnd(i) == gr[i][1] = EndPos
Following(i) == Around(gr[i][2])

Begin(i)   == gr' = [ gr EXCEPT ![i] = Around(0) ] /\ out' = Nothing /\ UNCHANGED k
Finish(i)  == gr' = [ gr EXCEPT ![i] = Around(EndPos) ] /\ out' = Nothing /\ UNCHANGED k
Place(i, p) == /\ p \in 0 .. EndPos
               /\ gr' = [ gr EXCEPT ![i] = Around(p) ] /\ out' = Nothing /\ UNCHANGED k
Copy(i, j) == gr' = [ gr EXCEPT ![i] = gr[j] ] /\ out' = Nothing /\ UNCHANGED k
IncPre(i)  == /\ ~AtEnd(i) /\ gr' = [ gr EXCEPT ![i] = Following(i) ]
              /\ out' = << "grapheme", Following(i) >> /\ UNCHANGED k
IncPost(i) == /\ ~AtEnd(i) /\ gr' = [ gr EXCEPT ![i] = Following(i) ]
              /\ out' = << "grapheme", gr[i] >> /\ UNCHANGED k
Deref(i)   == /\ ~AtEnd(i) /\ out' = << "grapheme", gr[i] >> /\ UNCHANGED << k, gr >>
Same(i, j) == gr[i] = gr[j]
Holds(i, p) == IF AtEnd(i) THEN p = EndPos ELSE gr[i][1] <= p /\ p < gr[i][2]
Eq(i, j)   == out' = << "bool", Same(i, j) >> /\ UNCHANGED << k, gr >>
Ne(i, j)   == out' = << "bool", ~Same(i, j) >> /\ UNCHANGED << k, gr >>
EqPos(i, p) == p \in 0 .. EndPos /\ out' = << "bool", Holds(i, p) >> /\ UNCHANGED << k, gr >>
NePos(i, p) == p \in 0 .. EndPos /\ out' = << "bool", ~Holds(i, p) >> /\ UNCHANGED << k, gr >>

-----------------------------------------------------------------------------
TypeOK == \A i \in Iterators : gr[i][1] \in 0 .. EndPos /\ gr[i][2] \in gr[i][1] .. EndPos
AllSegments == { Segments(k)[n] : n \in 1 .. Len(Segments(k)) }
(* C08/C11: an iterator always denotes a grapheme of the forward segmentation, or the end *)
DenotesASegment == \A i \in Iterators : AtEnd(i) \/ gr[i] \in AllSegments
(* C08: the segments partition the text *)
Partition == LET s == Segments(k) IN
  /\ \A n \in 1 .. Len(s) : s[n][1] < s[n][2]
  /\ (Len(s) = 0) = (EndPos = 0)
  /\ Len(s) > 0 => s[1][1] = 0 /\ s[Len(s)][2] = EndPos
  /\ \A n \in 1 .. Len(s) - 1 : s[n][2] = s[n + 1][1]
(* C09: a boundary depends on the two adjacent classes only *)
PairwiseOnly == \A p \in 1 .. EndPos - 1 :
  (\E n \in 1 .. Len(Segments(k)) : Segments(k)[n][1] = p) = ClassBoundary(k[p], k[p + 1])
(* C12 *)
EqualityLaws == \A i, j \in Iterators :
  /\ Same(i, j) = Same(j, i)
  /\ Same(i, j) = (\A p \in 0 .. EndPos : Holds(i, p) = Holds(j, p))
  /\ ~Same(i, j) => \A p \in 0 .. EndPos : ~(Holds(i, p) /\ Holds(j, p))
===============================================================================
