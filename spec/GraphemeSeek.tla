----------------------------- MODULE GraphemeSeek -----------------------------
(***************************************************************************)
(* The two loops of basic_grapheme_iterator, find_start_of_grapheme and    *)
(* find_end_of_grapheme, one action per loop iteration.  k is the sequence *)
(* of Grapheme_Cluster_Break classes; positions are codepoint indices.     *)
(***************************************************************************)
EXTENDS Graphemes
CONSTANT LookBack  \* TRUE: the loop looks at the codepoint before `where`
                   \* (FALSE is a mutant: it compares a codepoint with itself)
VARIABLES k, given, pc, where, copy, eog, a, b, looked
svars == << k, given, pc, where, copy, eog, a, b, looked >>
EndPos == Len(k)
At(p) == k[p + 1]
SeekInit(ks, p) == /\ k = ks /\ given = p /\ where = p /\ eog = p /\ copy = p
                   /\ a = 0 /\ b = 0 /\ looked = {}
                   /\ pc = IF p = 0 \/ p = Len(ks) THEN "end?" ELSE "start"
Look(p) == looked' = looked \cup {p}
StartFirst == /\ pc = "start" /\ b' = At(where) /\ Look(where) /\ pc' = "back"
              /\ UNCHANGED << k, given, where, copy, eog, a >>
StartLoop ==
  /\ pc = "back"
  /\ IF where = 0 THEN /\ pc' = "end?" /\ UNCHANGED << where, copy, a, b, looked >>
     ELSE /\ copy' = IF LookBack THEN copy - 1 ELSE copy
          /\ a' = At(copy') /\ Look(copy')
          /\ IF ClassBoundary(a', b)
             THEN /\ pc' = "end?" /\ UNCHANGED << where, b >>
             ELSE /\ b' = a' /\ where' = where - 1 /\ UNCHANGED pc
  /\ UNCHANGED << k, given, eog >>
EndFirst == /\ pc = "end?"
            /\ IF eog = EndPos THEN /\ pc' = "done" /\ UNCHANGED << eog, a, looked >>
               ELSE /\ a' = At(eog) /\ Look(eog) /\ eog' = eog + 1 /\ pc' = "forward"
            /\ UNCHANGED << k, given, where, copy, b >>
EndLoop ==
  /\ pc = "forward"
  /\ IF eog = EndPos THEN pc' = "done" /\ UNCHANGED << eog, a, b, looked >>
     ELSE /\ b' = At(eog) /\ Look(eog)
          /\ IF ClassBoundary(a, b') THEN pc' = "done" /\ UNCHANGED << eog, a >>
             ELSE a' = b' /\ eog' = eog + 1 /\ UNCHANGED pc
  /\ UNCHANGED << k, given, where, copy >>
SeekNext == StartFirst \/ StartLoop \/ EndFirst \/ EndLoop
Done == pc = "done"
(* C11: the loops find exactly the grapheme that contains the position *)
FindsTheGrapheme ==
  Done => IF given = EndPos THEN where = EndPos /\ eog = EndPos
          ELSE /\ where = GStart(k, given) /\ eog = GEnd(k, given)
               /\ << where, eog >> \in { Segments(k)[i] : i \in 1 .. Len(Segments(k)) }
LooksInside == looked \subseteq 0 .. EndPos - 1
===============================================================================
