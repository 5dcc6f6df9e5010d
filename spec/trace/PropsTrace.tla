------------------------------- MODULE PropsTrace ------------------------------
(***************************************************************************)
(* Observations of the property lookups, against Ucd.  Runs of equal       *)
(* observations are written once.                                          *)
(***************************************************************************)
EXTENDS Ucd, TraceBase
Run(e) == e.from .. e.from + e.n - 1
Inside(e) == e.n > 0 /\ e.from >= 0 /\ e.from + e.n - 1 <= 1114111
GcbOk(e) == Inside(e) /\ \A c \in Run(e) : GCB(c) = e.v
CccOk(e) == Inside(e) /\ \A c \in Run(e) : CCC(c) = e.v
(* nothing to decompose: the codepoint itself was appended, count 1, no mapping *)
DecIdOk(e) == Inside(e) /\ \A c \in Run(e) : ~IsHangulS(c) /\ ~HasListedMapping(c, e.compat)
DecOk(e) ==
  LET full == FullDecomposition(e.c, e.compat) IN
  /\ e.out = e.pre \o full /\ e.count = Len(full)
  /\ IF HasListedMapping(e.c, e.compat) THEN ~e.null /\ e.res = full
     \* the algorithmic mappings are not listed; a lookup may still give them
     ELSE e.null \/ (IsHangulS(e.c) /\ e.res = full)
(* C27: only the count and what was there before *)
DecCountOk(e) ==
  /\ Len(e.out) >= Len(e.pre) /\ SubSeq(e.out, 1, Len(e.pre)) = e.pre
  /\ e.count = Len(e.out) - Len(e.pre)
-----------------------------------------------------------------------------
InRect(e, a, b) == IF e.bs # << >> THEN a >= e.a0 /\ a < e.a0 + e.an /\ (\E n \in 1 .. Len(e.bs) : e.bs[n] = b)
                   ELSE b >= e.b0 /\ b < e.b0 + e.bn /\ (\E n \in 1 .. Len(e.as) : e.as[n] = a)
(* all primary composites whose pair lies in the rectangle *)
Primaries == ListedPrimaries
HangulVs == VBase .. VBase + VCount - 1
HangulTs == TBase + 1 .. TBase + TCount - 1
Hits(e) ==
  LET listed == { p \in Primaries : InRect(e, p[1], p[2]) }
      pairs ==
        IF e.bs # << >> THEN
          LET bset == { e.bs[n] : n \in 1 .. Len(e.bs) }
              vs == bset \cap HangulVs
              ts == bset \cap HangulTs
              lo == e.a0  hi == e.a0 + e.an - 1
              ls == { a \in LBase .. LBase + LCount - 1 : lo <= a /\ a <= hi }
              lvs == IF hi < SBase \/ lo >= SBase + SCount THEN {}
                     ELSE { a \in (IF lo > SBase THEN lo ELSE SBase) .. (IF hi < SBase + SCount - 1 THEN hi ELSE SBase + SCount - 1) :
                              (a - SBase) % TCount = 0 }
          IN (ls \X vs) \cup (lvs \X ts)
        ELSE
          LET aset == { e.as[n] : n \in 1 .. Len(e.as) }
              ls == { a \in aset : a >= LBase /\ a < LBase + LCount }
              lvs == { a \in aset : IsHangulS(a) /\ (a - SBase) % TCount = 0 }
              vs == { b \in HangulVs : b >= e.b0 /\ b < e.b0 + e.bn }
              ts == { b \in HangulTs : b >= e.b0 /\ b < e.b0 + e.bn }
          IN (ls \X vs) \cup (lvs \X ts)
  IN listed \cup { << p[1], p[2], Composite(p[1], p[2]) >> : p \in pairs }
CompOk(e) == { e.hits[n] : n \in 1 .. Len(e.hits) } = Hits(e)
-----------------------------------------------------------------------------
Ok(e) == CASE e.op = "gcb" -> GcbOk(e)
           [] e.op = "ccc" -> CccOk(e)
           [] e.op = "decid" -> IF IOEnv.WHAT = "count" THEN Inside(e) ELSE DecIdOk(e)
           [] e.op = "dec" -> IF IOEnv.WHAT = "count" THEN DecCountOk(e) ELSE DecOk(e)
           [] e.op = "comp" -> CompOk(e)
           [] e.op = "end" -> IsEnd(e)
           [] OTHER -> FALSE
TNext == \/ l <= TraceLen /\ (IF Ok(E0) THEN Good ELSE Bad)
         \/ Report
TSpec == TBInit /\ [][TNext]_tv
===============================================================================
