------------------------------ MODULE ReachTrace ------------------------------
(***************************************************************************)
(* Which positions of a long text each operation looked at or wrote to,    *)
(* against Reach; and how the steps taken and the memory needed by a pass  *)
(* grow when the text is made four times as long.                          *)
(* r: runs of positions, lowest and highest of each.                       *)
(***************************************************************************)
EXTENDS Graphemes, Ucd, TraceBase
U8 == INSTANCE Utf8
RE == INSTANCE Reach WITH FromStart <- FALSE, len <- 0, grs <- {}, kind <- "forward", at <- 0, touched <- << >>, todo <- 1
VARIABLES native, begins        \* where each codepoint begins, and the end; where graphemes begin
all == << tv, native, begins >>
RECURSIVE Offsets(_, _, _, _)
Offsets(s, i, utf8, acc) == IF i > Len(s) THEN acc
  ELSE Offsets(s, i + 1, utf8, Append(acc, acc[Len(acc)] + IF utf8 THEN U8!EncSize(s[i]) ELSE 1))
N == Len(native) - 1
Index(p) == IF p >= native[N + 1] THEN N ELSE (CHOOSE i \in 1 .. N : native[i] <= p /\ p < native[i + 1]) - 1
Text(e) == /\ native' = TLCEval(Offsets(e.s, 1, e.utf8, << 0 >>))
           /\ LET k == TLCEval([ i \in 1 .. Len(e.s) |-> GCB(e.s[i]) ])
              IN begins' = TLCEval({ p \in 0 .. Len(e.s) : IsBoundary(k, p) })
(* codepoints lo .. hi-1 as positions; the end position if they reach it   *)
Positions(w) == << native[w[1] + 1], IF w[2] = N THEN native[N + 1] ELSE native[w[2] + 1] - 1 >>
Within(r, ws) == \A j \in 1 .. Len(r) : \E w \in ws : LET x == Positions(w) IN x[1] <= r[j][1] /\ r[j][2] <= x[2]
Both(f(_), p, q) == LET a == f(p)  b == f(q) IN { a, b } \cup (IF a[2] >= b[1] /\ b[2] >= a[1] THEN { << RE!Min2(a[1], b[1]), RE!Max2(a[2], b[2]) >> } ELSE {})
Cp(what, p) == RE!CpSpan(what, N, Index(p))
Gr(what, p) == RE!GrSpan(what, begins, N, Index(p))
Reached(e) ==
  CASE e.what \in { "read", "inc", "pinc", "dec", "pdec", "rread", "make" } -> { Cp(e.what, e.p) }
    [] e.what \in { "eq", "ne" } -> Both(LAMBDA p : Cp("eq", p), e.p, e.q)
    [] e.what \in { "place", "gread", "ginc", "gpinc" } -> { Gr(e.what, e.p) }
    [] e.what \in { "geq", "gne", "geqpos" } -> Both(LAMBDA p : Gr("geq", p), e.p, e.q)
    \* what is copied, and the ends
    [] e.what = "append" -> { << Cp("eq", e.p)[1], Cp("eq", e.q)[2] >> }
    [] e.what = "appendg" -> { << Gr("geq", e.p)[1], Gr("geq", e.q)[2] >> }
Near(e) == Within(e.r, Reached(e))
(* the first octet and the last seven; when repairing, as many at the      *)
(* beginning as are replaced, and the one that need not be                 *)
RECURSIVE Conts(_, _)
Conts(t, i) == IF i > Len(t) \/ ~U8!IsCont(t[i]) THEN i - 1 ELSE Conts(t, i + 1)
Ends(e) == LET n == Len(e.t)  first == IF e.what = "check" THEN 0 ELSE Conts(e.t, 1)
           IN \A j \in 1 .. Len(e.r) :
                \/ 0 <= e.r[j][1] /\ e.r[j][2] <= first
                \/ n - 7 <= e.r[j][1] /\ e.r[j][2] <= n - 1
                \/ n - 8 <= first /\ 0 <= e.r[j][1] /\ e.r[j][2] <= n - 1
(* a text of n units, and the same text twice and four times.  Sorting and *)
(* searching may add a logarithm: 4 * log(4n) / log(n) < 6 for n >= 16     *)
Grows(e) == e.s2 <= 3 * e.s1 + 1000 /\ e.s4 <= 6 * e.s1 + 2000
(* the codepoints of one grapheme may be sorted and composed in a simple way *)
Forms == { "form d", "form c", "form kd", "form kc" }
Squares(e) == e.s2 <= 6 * e.s1 + 1000 /\ e.s4 <= 24 * e.s1 + 2000
(* beside the result nothing is kept but a grapheme                        *)
Keeps(e) == IF e.giant THEN e.m4 <= 6 * e.m1 + 4096 ELSE e.m4 <= e.m1 + 4096
Pass(e) == e.n >= 500 /\ e.done /\ (IF e.giant /\ e.what \in Forms THEN Squares(e) ELSE Grows(e)) /\ Keeps(e)
Ok(e) == CASE e.op = "near" -> Near(e)
           [] e.op = "ends" -> Ends(e)
           [] e.op = "pass" -> Pass(e)
           [] e.op = "end" -> IsEnd(e)
           [] OTHER -> FALSE
TInit == TBInit /\ native = << 0 >> /\ begins = { 0 }
TNext == \/ l <= TraceLen /\ E0.op = "text" /\ Text(E0) /\ Good
         \/ l <= TraceLen /\ E0.op # "text" /\ UNCHANGED << native, begins >> /\ (IF Ok(E0) THEN Good ELSE Bad)
         \/ Report /\ UNCHANGED << native, begins >>
TSpec == TInit /\ [][TNext]_all
===============================================================================
