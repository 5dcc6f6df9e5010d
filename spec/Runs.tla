--------------------------------- MODULE Runs ---------------------------------
(***************************************************************************)
(* Texts far too long to be written out: sequences of runs << c, k >>, the *)
(* codepoint c repeated k > 0 times.  Segmentation and normalization on    *)
(* runs; MCRuns checks that they agree with Graphemes and Normal on the    *)
(* texts written out.                                                      *)
(***************************************************************************)
EXTENDS Normal

RECURSIVE Expand(_, _), TotalTo(_, _), CollapseFrom(_, _, _)
Expand(rs, i) == IF i > Len(rs) THEN << >>
                 ELSE [ j \in 1 .. rs[i][2] |-> rs[i][1] ] \o Expand(rs, i + 1)
Written(rs) == Expand(rs, 1)
(* codepoints in the first i runs *)
TotalTo(rs, i) == IF i = 0 THEN 0 ELSE TotalTo(rs, i - 1) + rs[i][2]
Total(rs) == TotalTo(rs, Len(rs))
(* equal neighbours joined *)
Join(acc, c, k) == IF Len(acc) > 0 /\ acc[Len(acc)][1] = c
                   THEN [ acc EXCEPT ![Len(acc)] = << c, @[2] + k >> ]
                   ELSE Append(acc, << c, k >>)
CollapseFrom(rs, i, acc) == IF i > Len(rs) THEN acc
                            ELSE CollapseFrom(rs, i + 1, Join(acc, rs[i][1], rs[i][2]))
Collapse(rs) == CollapseFrom(rs, 1, << >>)
RECURSIVE RunsOf(_, _, _)
RunsOf(s, i, acc) == IF i > Len(s) THEN acc ELSE RunsOf(s, i + 1, Join(acc, s[i], 1))

-----------------------------------------------------------------------------
(* the run of codepoint number p, 0 <= p < Total *)
RECURSIVE RunAt(_, _, _)
RunAt(rs, p, i) == IF p < rs[i][2] THEN i ELSE RunAt(rs, p - rs[i][2], i + 1)
Inner(rs, i) == ClassBoundary(GCB(rs[i][1]), GCB(rs[i][1]))
Between(rs, i) == ClassBoundary(GCB(rs[i][1]), GCB(rs[i + 1][1]))  \* after run i
RECURSIVE BeginFrom(_, _), EndFrom(_, _)
(* start of the grapheme that holds the first codepoint of run i *)
BeginFrom(rs, i) == IF i = 1 \/ Between(rs, i - 1) THEN TotalTo(rs, i - 1)
                    ELSE IF rs[i - 1][2] > 1 /\ Inner(rs, i - 1) THEN TotalTo(rs, i - 1) - 1
                    ELSE BeginFrom(rs, i - 1)
(* end of the grapheme that holds the last codepoint of run i *)
EndFrom(rs, i) == IF i = Len(rs) \/ Between(rs, i) THEN TotalTo(rs, i)
                  ELSE IF rs[i + 1][2] > 1 /\ Inner(rs, i + 1) THEN TotalTo(rs, i) + 1
                  ELSE EndFrom(rs, i + 1)
RBegin(rs, p) == LET i == RunAt(rs, p, 1) IN
                 IF p > TotalTo(rs, i - 1) /\ Inner(rs, i) THEN p ELSE BeginFrom(rs, i)
REnd(rs, p) == LET i == RunAt(rs, p, 1) IN
               IF p + 1 < TotalTo(rs, i) /\ Inner(rs, i) THEN p + 1 ELSE EndFrom(rs, i)
(* number of graphemes *)
RECURSIVE CountFrom(_, _)
CountFrom(rs, i) == IF i = 0 THEN 0
                    ELSE CountFrom(rs, i - 1) + (IF Inner(rs, i) THEN rs[i][2] - 1 ELSE 0)
                         + (IF i = 1 \/ Between(rs, i - 1) THEN 1 ELSE 0)
RGraphemes(rs) == CountFrom(rs, Len(rs))

-----------------------------------------------------------------------------
(* A run of more than one may only hold codepoints that decompose to one.  *)
RunsOk(rs, compat) == \A i \in 1 .. Len(rs) : rs[i][2] = 1 \/ Len(FullDecomposition(rs[i][1], compat)) = 1
RECURSIVE DecRuns(_, _, _), OrdRuns(_, _, _)
DecRuns(rs, i, compat) ==
  IF i > Len(rs) THEN << >>
  ELSE LET d == FullDecomposition(rs[i][1], compat) IN
       (IF Len(d) = 1 THEN << << d[1], rs[i][2] >> >> ELSE [ j \in 1 .. Len(d) |-> << d[j], 1 >> ])
       \o DecRuns(rs, i + 1, compat)
RECURSIVE RunInsertPoint(_, _, _)
RunInsertPoint(s, i, k) == IF i = 0 \/ CCC(s[i][1]) <= k THEN i ELSE RunInsertPoint(s, i - 1, k)
OrdRuns(s, i, acc) ==
  IF i > Len(s) THEN acc
  ELSE LET k == CCC(s[i][1])
           n == IF k = 0 THEN Len(acc) ELSE RunInsertPoint(acc, Len(acc), k)
       IN OrdRuns(s, i + 1, SubSeq(acc, 1, n) \o << s[i] >> \o SubSeq(acc, n + 1, Len(acc)))
(* out: kept before the starter st (-1: none), tail: kept after it, last: *)
(* the class of the last of tail (-1: none); k more of s[i] to come        *)
RECURSIVE CompRuns(_, _, _, _, _, _, _)
CompRuns(s, i, k, out, st, tail, last) ==
  LET all == out \o (IF st = -1 THEN << >> ELSE << << st, 1 >> >>) \o tail
  IN IF i > Len(s) THEN all
     ELSE IF k = 0 THEN CompRuns(s, i + 1, IF i < Len(s) THEN s[i + 1][2] ELSE 0, out, st, tail, last)
     ELSE LET c == s[i][1]
              x == IF st # -1 /\ last < CCC(c) THEN Composite(st, c) ELSE NoComposite
          IN IF x # NoComposite THEN CompRuns(s, i, k - 1, out, x, tail, last)
             ELSE IF CCC(c) > 0 THEN CompRuns(s, i, 0, out, st, Append(tail, << c, k >>), CCC(c))
             ELSE IF k = 1 \/ Composite(c, c) # NoComposite THEN CompRuns(s, i, k - 1, all, c, << >>, -1)
             ELSE CompRuns(s, i, 0, Append(all, << c, k - 1 >>), c, << >>, -1)
ComposeRuns(s) == CompRuns(s, 1, IF s = << >> THEN 0 ELSE s[1][2], << >>, -1, << >>, -1)
RunsForm(f, rs) ==
  LET o == OrdRuns(DecRuns(rs, 1, f \in { "kd", "kc" }), 1, << >>)
  IN Collapse(IF f \in { "c", "kc" } THEN ComposeRuns(o) ELSE o)
===============================================================================
