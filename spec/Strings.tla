-------------------------------- MODULE Strings -------------------------------
(***************************************************************************)
(* Encoded string objects.  obj[i] is the native content of object i:      *)
(* octets for enc[i] = "8", codepoints for enc[i] = "32".  One action per  *)
(* constructor, assignment or append of basic_encodedstring.               *)
(***************************************************************************)
EXTENDS Utf8, Ucd, Graphemes
CONSTANT Slots
VARIABLES enc, obj, act    \* act: history, << name, changed slot(s) >>
sv == << enc, obj, act >>

(* codepoints of an object, and the codepoint structure of its positions *)
Cps(i) == IF enc[i] = "8" THEN DecodeAll(obj[i]) ELSE obj[i]
CpStart(i, p) == IF enc[i] = "8" THEN StartOf(obj[i], p) ELSE p
Positions(i) == 0 .. Len(obj[i])
(* native position of codepoint number n (0..), and the inverse *)
NativeAt(i, n) == IF enc[i] = "8" THEN Len(EncodeAll(SubSeq(Cps(i), 1, n))) ELSE n
CpIndex(i, p) == IF enc[i] = "8" THEN Len(DecodeAll(Slice(obj[i], 0, StartOf(obj[i], p)))) ELSE p
ClassesAt(i) == LET s == Cps(i) IN TLCEval([ n \in 1 .. Len(s) |-> GCB(s[n]) ])
(* native position where the grapheme around native position p starts *)
GraphemeStart(i, p) ==
  IF p = Len(obj[i]) THEN p
  ELSE NativeAt(i, GStart(ClassesAt(i), CpIndex(i, p)))
Native(e, s) == IF e = "8" THEN EncodeAll(s) ELSE s

Set(i, v, name) == obj' = [ obj EXCEPT ![i] = v ] /\ act' = << name, i >> /\ UNCHANGED enc

Default(i) == Set(i, << >>, "default")
FromNative(i, v) == Set(i, v, "native")
CopyFrom(i, j) == enc[i] = enc[j] /\ Set(i, obj[j], "copy")
Assign(i, j) == enc[i] = enc[j] /\ Set(i, obj[j], "assign")
(* a value moves from one object to another, and the object it was moved   *)
(* from is given new content                                               *)
Two(i, j, v, w, name) == obj' = [ obj EXCEPT ![i] = v, ![j] = w ] /\ act' = << name, i, j >> /\ UNCHANGED enc
Move(i, j, v) == i # j /\ enc[i] = enc[j] /\ Two(i, j, obj[j], v, "move")
Swap(i, j) == enc[i] = enc[j] /\ Two(i, j, obj[j], obj[i], "swap")
AppendRange(i, j, p, q) ==
  /\ enc[i] = enc[j] /\ p \in Positions(j) /\ q \in Positions(j)
  /\ CpStart(j, p) <= CpStart(j, q)
  /\ Set(i, obj[i] \o Slice(obj[j], CpStart(j, p), CpStart(j, q)), "append")
AppendGraphemes(i, j, p, q) ==
  /\ enc[i] = enc[j] /\ p \in Positions(j) /\ q \in Positions(j)
  /\ GraphemeStart(j, p) <= GraphemeStart(j, q)
  /\ Set(i, obj[i] \o Slice(obj[j], GraphemeStart(j, p), GraphemeStart(j, q)), "appendg")
AppendUtf32(i, s) == Set(i, obj[i] \o Native(enc[i], s), "append32")
(* replace the codepoint that starts at p by one that takes as many units *)
Overwrite(i, p, c) ==
  /\ p \in Positions(i) /\ p < Len(obj[i]) /\ CpStart(i, p) = p
  /\ (enc[i] = "8" => EncSize(c) = LeadSize(obj[i][p + 1]))
  /\ Set(i, SubSeq(obj[i], 1, p) \o Native(enc[i], << c >>)
            \o SubSeq(obj[i], p + 1 + Len(Native(enc[i], << c >>)), Len(obj[i])), "overwrite")

-----------------------------------------------------------------------------
AllWellFormed == \A i \in Slots : enc[i] = "8" => WellFormed(obj[i])
(* C13: appending [begin, octet p) gives the longest well-formed prefix *)
LongestPrefix == \A i \in Slots : enc[i] = "8" => \A p \in Positions(i) :
  LET cut == Slice(obj[i], 0, CpStart(i, p)) IN
  /\ WellFormed(cut) /\ Len(cut) <= p
  /\ \A q \in Len(cut) + 1 .. p : ~WellFormed(Slice(obj[i], 0, q))
(* C14: a cut at a grapheme start never splits a grapheme or a codepoint *)
GraphemeCut == \A i \in Slots : \A p \in Positions(i) :
  LET g == GraphemeStart(i, p)
      cut == Slice(obj[i], 0, g) IN
  /\ g <= p
  /\ enc[i] = "8" => WellFormed(cut)
  /\ g = Len(obj[i]) \/ IsBoundary(ClassesAt(i), CpIndex(i, g))
(* C04 *)
RoundTrip == \A i \in Slots : Native(enc[i], Cps(i)) = obj[i]
(* C15: an operation on one object never shows in another *)
Independent == [][ \A i \in Slots : i \notin { act'[n] : n \in 2 .. Len(act') } => obj'[i] = obj[i] ]_sv
(* C15: a swap loses nothing, and done again undoes itself *)
SwapKeeps == [][ act'[1] = "swap" => LET i == act'[2] j == act'[3] IN obj'[i] = obj[j] /\ obj'[j] = obj[i] ]_sv
(* C04, C13, C14: appends keep what was there *)
AppendOnly == [][ act'[1] \in {"append", "appendg", "append32"} =>
                    LET i == act'[2] IN /\ Len(obj'[i]) >= Len(obj[i])
                                        /\ SubSeq(obj'[i], 1, Len(obj[i])) = obj[i] ]_sv
===============================================================================
