----------------------------- MODULE GraphemeTrace -----------------------------
(***************************************************************************)
(* Traces of grapheme iterators, checked against GraphemeCursor.  The log  *)
(* speaks about native positions (octets or units); native maps codepoint  *)
(* indices to them.                                                         *)
(***************************************************************************)
EXTENDS GraphemeCursor, Runs, TraceBase
U8 == INSTANCE Utf8
VARIABLES native, text, skip
all == << gvars, tv, native, text, skip >>
TInit == TBInit /\ k = << >> /\ gr = [ i \in Iterators |-> << 0, 0 >> ] /\ out = Nothing
         /\ native = << 0 >> /\ text = << >> /\ skip = TRUE
Classes(s) == TLCEval([ i \in 1 .. Len(s) |-> GCB(s[i]) ])
RECURSIVE Offsets(_, _, _, _)
Offsets(s, i, utf8, acc) == IF i > Len(s) THEN acc
  ELSE Offsets(s, i + 1, utf8, Append(acc, acc[Len(acc)] + IF utf8 THEN U8!EncSize(s[i]) ELSE 1))
NativeOf(s, utf8) == TLCEval(Offsets(s, 1, utf8, << 0 >>))
(* the codepoint a native position belongs to *)
RECURSIVE IndexFrom(_, _, _)
IndexFrom(nat, p, i) == IF i = Len(nat) \/ nat[i + 1] > p THEN i - 1 ELSE IndexFrom(nat, p, i + 1)
IndexIn(nat, p) == IndexFrom(nat, p, 1)
Index(p) == IndexIn(native, p)
(* a logged pair of native positions denotes the pair g of codepoint indices *)
SameSpot(nat, p, n) == p = -1 \/ (p \in 0 .. nat[Len(nat)] /\ IndexIn(nat, p) = n)
Is(pq, g) == SameSpot(native, pq[1], g[1]) /\ SameSpot(native, pq[2], g[2])

New(e) == /\ e.op = "new" /\ k' = Classes(e.s) /\ native' = NativeOf(e.s, e.utf8) /\ text' = e.s
          /\ gr' = [ i \in Iterators |-> IF Len(e.s) = 0 THEN << 0, 0 >> ELSE << 0, GEnd(Classes(e.s), 0) >> ]
          /\ out' = Nothing
Now(e) == Is(e.g, gr'[e.i])
Ret(e) == Is(e.ret, out'[2])
TBegin(e) == e.op = "begin" /\ Begin(e.i) /\ Now(e)
TFinish(e) == e.op = "end_" /\ Finish(e.i) /\ Now(e)
TPlace(e) == e.op = "place" /\ Place(e.i, Index(e.p)) /\ Now(e)
TInc(e) == e.op = "inc" /\ IncPre(e.i) /\ Now(e) /\ Ret(e)
TPInc(e) == e.op = "pinc" /\ IncPost(e.i) /\ Now(e) /\ Ret(e)
TCopy(e) == e.op = "copy" /\ Copy(e.i, e.j) /\ Now(e)
TDeref(e) == e.op = "deref" /\ Deref(e.i) /\ Is(e.g, out'[2]) /\ e.cps = SubSeq(text, out'[2][1] + 1, out'[2][2])
TEq(e) == e.op = "eq" /\ Eq(e.i, e.j) /\ out'[2] = e.eq /\ e.ne = ~e.eq
TEqPos(e) == e.op = "eqpos" /\ EqPos(e.i, Index(e.p)) /\ out'[2] = e.eq /\ e.ne = ~e.eq
-----------------------------------------------------------------------------
(* whole walks: Begin, then Deref and IncPre up to the end *)
WalkOk(e) ==
  LET nat == NativeOf(e.s, e.utf8)
      seg == Segments(Classes(e.s))
  IN /\ Len(e.g) = Len(seg) /\ Len(e.cps) = Len(seg) /\ e.same
     /\ \A n \in 1 .. Len(seg) :
          /\ SameSpot(nat, e.g[n][1], seg[n][1]) /\ SameSpot(nat, e.g[n][2], seg[n][2])
          /\ e.cps[n] = SubSeq(e.s, seg[n][1] + 1, seg[n][2])
(* Place at every native position, IncPre from there, Eq and EqPos of all pairs *)
PlacesOk(e) ==
  LET nat == NativeOf(e.s, e.utf8)
      ks == Classes(e.s)
      last == nat[Len(nat)]
      around == TLCEval([ n \in 0 .. Len(ks) |-> IF n = Len(ks) THEN << n, n >> ELSE << GStart(ks, n), GEnd(ks, n) >> ])
      ix == TLCEval([ p \in 0 .. last |-> IndexIn(nat, p) ])
      Spot(pq, g) == SameSpot(nat, pq[1], g[1]) /\ SameSpot(nat, pq[2], g[2])
      B(x) == IF x THEN 1 ELSE 2
  IN /\ Len(e.g) = last + 1
     /\ \A p \in 0 .. last :
          LET g == around[ix[p]] IN
          /\ Spot(e.g[p + 1], g)
          /\ p < last => Spot(e.nx[p + 1], around[g[2]])
          /\ \A q \in 0 .. last :
               /\ e.eq[p + 1][q + 1] = B(g = around[ix[q]])
               /\ e.ep[p + 1][q + 1] = B(IF p = last THEN q = last ELSE g[1] <= ix[q] /\ ix[q] < g[2])
(* the same for some positions of a long text *)
SpotsOk(e) ==
  LET nat == NativeOf(e.s, e.utf8)
      ks == Classes(e.s)
      last == nat[Len(nat)]
      m == Len(e.ps)
      ix == TLCEval([ a \in 1 .. m |-> IndexIn(nat, e.ps[a]) ])
      around == TLCEval([ a \in 1 .. m |-> IF ix[a] = Len(ks) THEN << ix[a], ix[a] >> ELSE << GStart(ks, ix[a]), GEnd(ks, ix[a]) >> ])
      Spot(pq, g) == SameSpot(nat, pq[1], g[1]) /\ SameSpot(nat, pq[2], g[2])
      B(x) == IF x THEN 1 ELSE 2
  IN /\ m > 0 /\ Len(e.g) = m
     /\ \A a \in 1 .. m :
          LET g == around[a]  p == e.ps[a] IN
          /\ Spot(e.g[a], g)
          /\ p < last => Spot(e.nx[a], IF g[2] = Len(ks) THEN << g[2], g[2] >> ELSE << g[2], GEnd(ks, g[2]) >>)
          /\ \A b \in 1 .. m :
               /\ e.eq[a][b] = B(g = around[b])
               /\ e.ep[a][b] = B(IF p = last THEN e.ps[b] = last ELSE g[1] <= ix[b] /\ ix[b] < g[2])
(* the same for texts given as runs *)
UnitsOf(utf8, c) == IF utf8 THEN U8!EncSize(c) ELSE 1
RECURSIVE RunsNative(_, _, _), RunsIndex(_, _, _, _)
(* native size of the first i runs; the codepoint native position p belongs to *)
RunsNative(rs, utf8, i) == IF i = 0 THEN 0 ELSE RunsNative(rs, utf8, i - 1) + rs[i][2] * UnitsOf(utf8, rs[i][1])
RunsIndex(rs, utf8, p, i) ==
  IF i > Len(rs) THEN 0
  ELSE LET u == UnitsOf(utf8, rs[i][1]) IN
       IF p < rs[i][2] * u THEN p \div u ELSE rs[i][2] + RunsIndex(rs, utf8, p - rs[i][2] * u, i + 1)
GiantOk(e) ==
  LET last == RunsNative(e.rs, e.utf8, Len(e.rs))
      total == Total(e.rs)
      m == Len(e.ps)
      ix == TLCEval([ a \in 1 .. m |-> RunsIndex(e.rs, e.utf8, e.ps[a], 1) ])
      at(n) == IF n = total THEN << n, n >> ELSE << RBegin(e.rs, n), REnd(e.rs, n) >>
      around == TLCEval([ a \in 1 .. m |-> at(ix[a]) ])
      SameIx(p, n) == p = -1 \/ (p \in 0 .. last /\ RunsIndex(e.rs, e.utf8, p, 1) = n)
      Spot(pq, g) == SameIx(pq[1], g[1]) /\ SameIx(pq[2], g[2])
      B(x) == IF x THEN 1 ELSE 2
  IN /\ m > 0 /\ Len(e.g) = m /\ e.n = RGraphemes(e.rs) /\ e.cps = total
     /\ \A a \in 1 .. m :
          LET g == around[a]  p == e.ps[a] IN
          /\ Spot(e.g[a], g)
          /\ p < last => Spot(e.nx[a], at(g[2]))
          /\ \A b \in 1 .. m :
               /\ e.eq[a][b] \in { 0, B(g = around[b]) }      \* 0: not asked
               /\ e.ep[a][b] = B(IF p = last THEN e.ps[b] = last ELSE g[1] <= ix[b] /\ ix[b] < g[2])
(* one codepoint next to one of every class *)
BSweepOk(e) ==
  LET gs == { GCB(e.from + d) : d \in 0 .. e.n - 1 } IN
  /\ \A i \in 1 .. 18 : GCB(e.reps[i]) = i - 1
  /\ \A g \in gs : \A i \in 1 .. 18 :
       /\ (e.a[i] = 1) = ClassBoundary(i - 1, g)
       /\ (e.b[i] = 1) = ClassBoundary(g, i - 1)
(* a unit repeated: either everything is one grapheme or every unit is one *)
LongOk(e) ==
  LET ks == Classes(e.unit)
      joined == ~ClassBoundary(ks[Len(ks)], ks[1])
      seg == Segments(ks)
      n == Len(e.unit)
  IN e.total = n * e.times /\
     IF Len(seg) = 1
     THEN e.rle = IF joined THEN << << n * e.times, 1 >> >> ELSE << << n, e.times >> >>
     ELSE TRUE
(* a slice of well-formed text is repaired in place and then walked forward *)
(* in several ways, whatever follows it in memory                            *)
SliceOk(e) ==
  LET range == U8!Slice(e.m, e.lo, e.hi)
      fixed == U8!Repaired(range)
      cps == U8!DecodeAll(fixed)
      nat == NativeOf(cps, TRUE)
      seg == Segments(Classes(cps))
  IN /\ U8!WellFormed(e.m) /\ U8!WellFormed(fixed)
     /\ e.chk = U8!BoundsOk(range) /\ e.enf = (fixed = range)
     /\ e.em = U8!Slice(e.m, 0, e.lo) \o fixed \o U8!Slice(e.m, e.hi, Len(e.m))
     /\ e.f = cps /\ e.w = cps /\ e.g = cps /\ e.copies
     /\ Len(e.gr) = Len(seg) /\ Len(e.cps) = Len(seg) /\ e.n = Len(seg)
     /\ \A n \in 1 .. Len(seg) :
          /\ SameSpot(nat, e.gr[n][1], seg[n][1]) /\ SameSpot(nat, e.gr[n][2], seg[n][2])
          /\ e.cps[n] = SubSeq(cps, seg[n][1] + 1, seg[n][2])
Alone(e) == CASE e.op = "slice" -> SliceOk(e) [] e.op = "walk" -> WalkOk(e) [] e.op = "places" -> PlacesOk(e) [] e.op = "spots" -> SpotsOk(e) [] e.op = "giant" -> GiantOk(e)
              [] e.op = "bsweep" -> BSweepOk(e) [] e.op = "glong" -> LongOk(e)
              [] e.op = "end" -> IsEnd(e) [] OTHER -> FALSE
IsAlone(e) == e.op \in { "walk", "places", "spots", "giant", "bsweep", "glong", "slice", "end", "crash" }
Accept(e) == \/ New(e)
             \/ /\ UNCHANGED << native, text >>
                /\ TBegin(e) \/ TFinish(e) \/ TPlace(e) \/ TInc(e) \/ TPInc(e) \/ TCopy(e) \/ TDeref(e) \/ TEq(e) \/ TEqPos(e)
TNext == \/ /\ l <= TraceLen
            /\ IF IsAlone(E0) THEN (IF Alone(E0) THEN Good ELSE Bad) /\ UNCHANGED << gvars, native, text, skip >>
               ELSE IF skip /\ E0.op # "new" THEN Good /\ UNCHANGED << gvars, native, text, skip >>
               ELSE IF ENABLED Accept(E0) THEN Accept(E0) /\ Good /\ skip' = FALSE
               ELSE Bad /\ skip' = TRUE /\ UNCHANGED << gvars, native, text >>
         \/ Report /\ UNCHANGED << gvars, native, text, skip >>
TSpec == TInit /\ [][TNext]_all
===============================================================================
