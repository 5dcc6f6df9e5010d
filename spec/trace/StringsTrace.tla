----------------------------- MODULE StringsTrace ------------------------------
(***************************************************************************)
(* Traces of sessions with encoded string objects, checked against         *)
(* Strings.  Objects 1, 2 are utf8_string, 3 is utf8_string_view, 4, 5 are *)
(* utf32ne_string and 6 is utf32ne_string_view.  Every event carries the   *)
(* native content of all objects after the operation.                      *)
(***************************************************************************)
EXTENDS Strings, TraceBase
VARIABLE skip
all == << sv, tv, skip >>
Encs == << "8", "8", "8", "32", "32", "32" >>
TInit == TBInit /\ enc = Encs /\ obj = [ i \in Slots |-> << >> ] /\ act = << "init", 0 >> /\ skip = TRUE
New(e) == e.op = "snew" /\ obj' = e.o /\ (\A i \in Slots : e.o[i] = << >>) /\ act' = << "init", 0 >> /\ UNCHANGED enc
Chain(i, j, p, q) ==
  /\ CpStart(j, p) <= CpStart(j, q)
  /\ LET x == Slice(obj[j], CpStart(j, p), CpStart(j, q)) IN Set(i, obj[i] \o x \o x, "append")
(* a grapheme range is only appended for graphemes in order *)
TAppendG(e) == \/ AppendGraphemes(e.i, e.j, e.p, e.q)
Step(e) == CASE e.op = "default" -> Default(e.i)
             [] e.op = "native" -> FromNative(e.i, e.s)
             [] e.op = "copy" -> CopyFrom(e.i, e.j)
             [] e.op = "assign" -> Assign(e.i, e.j)
             [] e.op = "move" -> Move(e.i, e.j, e.s)
             [] e.op = "swap" -> Swap(e.i, e.j)
             [] e.op = "append" -> AppendRange(e.i, e.j, e.p, e.q)
             [] e.op = "appendg" -> TAppendG(e)
             [] e.op = "append32" -> AppendUtf32(e.i, e.s)
             [] e.op = "overwrite" -> Overwrite(e.i, e.p, e.c)
             [] e.op = "chain" -> Chain(e.i, e.j, e.p, e.q)
             [] OTHER -> FALSE
(* all objects are as the action says, the memory behind views is intact, *)
(* and the operation returned its object                                    *)
Accept(e) == \/ New(e)
             \/ Step(e) /\ (\A i \in Slots : obj'[i] = e.o[i]) /\ e.self /\ e.intact
-----------------------------------------------------------------------------
Cl(s) == TLCEval([ n \in 1 .. Len(s) |-> GCB(s[n]) ])
NativeLen(s, utf8) == IF utf8 THEN Len(EncodeAll(s)) ELSE Len(s)
(* [begin, p) for every native position p, by codepoints and by graphemes, *)
(* and [begin, p) and [p, end) by graphemes whose iterators know only the  *)
(* text up to p and only the text from p on                                *)
CutsOk(e) ==
  LET t == IF e.utf8 THEN EncodeAll(e.s) ELSE e.s
      k == Cl(e.s)
      cp(p) == IF e.utf8 THEN StartOf(t, p) ELSE p
      ix(p) == IF e.utf8 THEN Len(DecodeAll(Slice(t, 0, cp(p)))) ELSE p
      gs(p) == IF p = Len(t) THEN p ELSE NativeLen(SubSeq(e.s, 1, GStart(k, ix(p))), e.utf8)
  IN /\ Len(e.c) = Len(t) + 1 /\ Len(e.g) = Len(t) + 1 /\ Len(e.m) = Len(t) + 1 /\ Len(e.n) = Len(t) + 1
     /\ \A p \in 0 .. Len(t) : e.c[p + 1] = Slice(t, 0, cp(p)) /\ e.g[p + 1] = Slice(t, 0, gs(p))
                             /\ e.m[p + 1] = Slice(t, 0, cp(p)) /\ e.n[p + 1] = Slice(t, cp(p), Len(t))
LongOk(e) ==
  LET x == IF e.utf8 THEN EncodeAll(e.u) ELSE e.u
      b == IF e.utf8 THEN EncodeAll(e.pre) ELSE e.pre
  IN e.kept = b /\ e.first = x /\ e.same /\ e.size = Len(b) + Len(x) * e.times
Alone(e) == CASE e.op = "cuts" -> CutsOk(e) [] e.op = "slong" -> LongOk(e) [] e.op = "sdouble" -> e.ok
              [] e.op = "end" -> IsEnd(e) [] OTHER -> FALSE
IsAlone(e) == e.op \in { "cuts", "slong", "sdouble", "end", "crash" }
TNext == \/ /\ l <= TraceLen
            /\ IF IsAlone(E0) THEN (IF Alone(E0) THEN Good ELSE Bad) /\ UNCHANGED << sv, skip >>
               ELSE IF skip /\ E0.op # "snew" THEN Good /\ UNCHANGED << sv, skip >>
               ELSE IF ENABLED Accept(E0) THEN Accept(E0) /\ Good /\ skip' = FALSE
               ELSE Bad /\ skip' = TRUE /\ UNCHANGED sv
         \/ Report /\ UNCHANGED << sv, skip >>
TSpec == TInit /\ [][TNext]_all
===============================================================================
