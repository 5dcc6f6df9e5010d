------------------------------- MODULE Normal -------------------------------
(***************************************************************************)
(* The four Unicode normalization forms (UAX #15, Unicode chapter 3.11).   *)
(***************************************************************************)
EXTENDS Integers, Sequences, Ucd, Graphemes

ClassesOf(s) == TLCEval([ i \in 1 .. Len(s) |-> GCB(s[i]) ])

(* Canonical ordering: stable insertion of each codepoint into the ordered *)
(* prefix; a starter (class 0) never moves and nothing moves over it.      *)
RECURSIVE InsertPoint(_, _, _)
InsertPoint(s, i, k) == \* number of leading elements of s[1..i] that stay before class k
  IF i = 0 \/ CCC(s[i]) <= k THEN i ELSE InsertPoint(s, i - 1, k)
Insert(s, c) ==
  IF CCC(c) = 0 THEN Append(s, c)
  ELSE LET i == InsertPoint(s, Len(s), CCC(c))
       IN SubSeq(s, 1, i) \o << c >> \o SubSeq(s, i + 1, Len(s))
RECURSIVE OrderFrom(_, _, _)
OrderFrom(s, i, acc) == IF i > Len(s) THEN acc ELSE OrderFrom(s, i + 1, Insert(acc, s[i]))
CanonicalOrder(s) == OrderFrom(s, 1, << >>)

DecomposeAll(s, compat) == FullDecSeq(s, 1, compat)

(* Canonical composition: out is what has been kept, st the index of the   *)
(* last starter in out (0: none), last the class of the last codepoint     *)
(* kept after that starter (-1: none).                                     *)
RECURSIVE ComposeFrom(_, _, _, _, _)
ComposeFrom(s, i, out, st, last) ==
  IF i > Len(s) THEN out
  ELSE LET c == s[i]
           k == CCC(c)
           free == st # 0 /\ last < k
           x == IF free THEN Composite(out[st], c) ELSE NoComposite
       IN IF x # NoComposite
          THEN ComposeFrom(s, i + 1, [out EXCEPT ![st] = x], st, last)
          ELSE IF k = 0
          THEN ComposeFrom(s, i + 1, Append(out, c), Len(out) + 1, -1)
          ELSE ComposeFrom(s, i + 1, Append(out, c), st, k)
Compose(s) == ComposeFrom(s, 1, << >>, 0, -1)

NFD(s)  == CanonicalOrder(DecomposeAll(s, FALSE))
NFKD(s) == CanonicalOrder(DecomposeAll(s, TRUE))
NFC(s)  == Compose(NFD(s))
NFKC(s) == Compose(NFKD(s))
Form(f, s) == CASE f = "d" -> NFD(s) [] f = "c" -> NFC(s)
                [] f = "kd" -> NFKD(s) [] f = "kc" -> NFKC(s)

-----------------------------------------------------------------------------
(* What a grapheme-by-grapheme normalization computes: the concatenation   *)
(* of the forms of the graphemes.                                          *)
Pieces(s) == LET seg == Segments(ClassesOf(s))
             IN TLCEval([ i \in 1 .. Len(seg) |-> SubSeq(s, seg[i][1] + 1, seg[i][2]) ])
RECURSIVE ConcatForms(_, _, _)
ConcatForms(f, ps, i) == IF i > Len(ps) THEN << >>
                         ELSE Form(f, ps[i]) \o ConcatForms(f, ps, i + 1)
PiecewiseForm(f, s) == ConcatForms(f, Pieces(s), 1)

(* Known deviation "kc-compat-jamo" (see known_findings): some codepoints   *)
(* have a compatibility decomposition that ends with an open Hangul        *)
(* syllable or begins with a conjoining vowel or trailing consonant, but   *)
(* are not Hangul for the grapheme rules.  There is a grapheme boundary    *)
(* next to them, so KC does not compose the Hangul across it.              *)
BeginsWithVT(c) == GCB(FullDecomposition(c, TRUE)[1]) \in { V, T }
EndsWithOpenHangul(c) == LET d == FullDecomposition(c, TRUE)
                         IN GCB(d[Len(d)]) \in { L, V }
CompatJamoGap(s) == \E p \in 1 .. Len(s) - 1 :
                      /\ ClassBoundary(GCB(s[p]), GCB(s[p + 1]))
                      /\ EndsWithOpenHangul(s[p]) /\ BeginsWithVT(s[p + 1])
=============================================================================
