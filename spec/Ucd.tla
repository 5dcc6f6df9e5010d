-------------------------------- MODULE Ucd ---------------------------------
(***************************************************************************)
(* The Unicode 9.0 character database (raw rows from spec/data/ucd.json)   *)
(* and the properties the library exposes, derived from it.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

LOCAL Db == JsonDeserialize(IOEnv.UCD)

LOCAL InDb(c) == c >= 0 /\ c <= 1114111
LOCAL Look(tab, c) == tab.pages[tab.index[(c \div 256) + 1]][(c % 256) + 1]
LOCAL Get(tab, c) == IF InDb(c) THEN Look(tab, c) ELSE 0

(* Canonical_Combining_Class *)
CCC(c) == Get(Db.ccc, c)

(* Grapheme_Cluster_Break as a small number, and its name *)
GCB(c) == Get(Db.gcb, c)
GcbNames == Db.gcbnames
GcbName(c) == GcbNames[GCB(c) + 1]

(* Hangul syllables (Unicode 3.12) *)
SBase == 44032   LBase == 4352   VBase == 4449   TBase == 4519
LCount == 19     VCount == 21    TCount == 28    SCount == 11172
IsHangulS(c) == c >= SBase /\ c < SBase + SCount
HangulDecomposition(c) ==
  LET s == c - SBase
      l == LBase + (s \div (VCount * TCount))
      v == VBase + ((s % (VCount * TCount)) \div TCount)
      t == TBase + (s % TCount)
  IN IF t = TBase THEN << l, v >> ELSE << l, v, t >>

(* Decomposition_Mapping row, if listed *)
LOCAL RowNo(c) == Get(Db.dec, c)
HasListedMapping(c, compat) == RowNo(c) # 0 /\ (compat \/ Db.rows[RowNo(c)].tag = "")
ListedMapping(c) == Db.rows[RowNo(c)].map

RECURSIVE FullDecomposition(_, _), FullDecSeq(_, _, _)
FullDecomposition(c, compat) ==
  IF IsHangulS(c) THEN HangulDecomposition(c)
  ELSE IF HasListedMapping(c, compat) THEN FullDecSeq(ListedMapping(c), 1, compat)
  ELSE << c >>
FullDecSeq(s, i, compat) ==
  IF i > Len(s) THEN << >>
  ELSE FullDecomposition(s[i], compat) \o FullDecSeq(s, i + 1, compat)

(* the codepoints that have a mapping row, in increasing order *)
MappedCount == Len(Db.rows)
MappedAt(i) == Db.rows[i].c

(* Primary composites: canonical two-codepoint mappings that are neither   *)
(* excluded nor non-starter decompositions, and the Hangul LV and LVT.     *)
Excluded(c) == Get(Db.excl, c) = 1
IsPrimary(a, c) == ~Excluded(c) /\ CCC(c) = 0 /\ CCC(a) = 0
NoComposite == -1
LOCAL ListedTo(a) == IF Get(Db.first, a) = 0 THEN << >> ELSE Db.pairs[Get(Db.first, a)].to
RECURSIVE FindTo(_, _, _, _)
FindTo(a, b, s, i) == IF i > Len(s) THEN NoComposite
                      ELSE IF s[i][1] = b /\ IsPrimary(a, s[i][2]) THEN s[i][2]
                      ELSE FindTo(a, b, s, i + 1)
Composite(a, b) ==
  IF a >= LBase /\ a < LBase + LCount /\ b >= VBase /\ b < VBase + VCount
  THEN SBase + ((a - LBase) * VCount + (b - VBase)) * TCount
  ELSE IF IsHangulS(a) /\ (a - SBase) % TCount = 0 /\ b > TBase /\ b < TBase + TCount
  THEN a + (b - TBase)
  ELSE FindTo(a, b, ListedTo(a), 1)

(* all listed primary composites as <<a, b, c>> *)
ListedPrimaries ==
  UNION { { << Db.pairs[i].a, Db.pairs[i].to[j][1], Db.pairs[i].to[j][2] >> :
              j \in { j \in 1 .. Len(Db.pairs[i].to) :
                        IsPrimary(Db.pairs[i].a, Db.pairs[i].to[j][2]) } } :
          i \in 1 .. Len(Db.pairs) }
=============================================================================
