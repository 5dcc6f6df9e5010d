------------------------------- MODULE AlgosTrace ------------------------------
(***************************************************************************)
(* Standard algorithms called with codepoint iterators: what they find and *)
(* copy is what they would on the array of codepoints; written through the *)
(* mutable iterator, the array is encoded.                                 *)
(***************************************************************************)
EXTENDS Algos, TraceBase
U8 == INSTANCE Utf8
AlgOk(e) == e.res = Result(e.name, SubSeq(e.s, e.i + 1, e.j), e.q, e.i, e.c, e.k, e.d)
Written(e) == CASE e.name = "copy" -> e.s
                [] e.name = "reverse_copy" -> Reverse(e.s)
                [] e.name = "fill" -> [ x \in 1 .. Len(e.s) |-> e.c ]
                [] e.name = "replace" -> [ x \in 1 .. Len(e.s) |-> IF e.s[x] = e.c THEN e.d ELSE e.s[x] ]
                [] e.name = "remove_copy" -> SelectSeq(e.s, LAMBDA x : x # e.c)
(* long texts as runs << c, k >> of different neighbours *)
RECURSIVE SumTo(_, _), RunOf(_, _, _)
SumTo(rs, i) == IF i = 0 THEN 0 ELSE SumTo(rs, i - 1) + rs[i][2]
RunOf(rs, p, i) == IF p < rs[i][2] THEN rs[i][1] ELSE RunOf(rs, p - rs[i][2], i + 1)
LongResult(name, rs, c, k) ==
  LET n == SumTo(rs, Len(rs))
      Keep(Is(_)) == LET m == SelectSeq(rs, Is) IN SumTo(m, Len(m)) IN
  CASE name \in { "distance", "walk", "copy" } -> n
    [] name = "count" -> Keep(LAMBDA x : x[1] = c)
    [] name = "count_if" -> Keep(LAMBDA x : x[1] <= c)
    [] name = "next" -> RunOf(rs, k, 1)
    [] name = "prev" -> RunOf(rs, n - k, 1)
    [] name = "find" -> SumTo(rs, First(rs, LAMBDA p : At(rs, p)[1] = c))
Ok(e) == CASE e.op = "long" -> e.res = LongResult(e.name, e.rs, e.c, e.k)
           [] e.op = "copied" -> e.got = e.rs
           [] e.op = "alg" -> AlgOk(e)
           [] e.op = "wrote" -> e.around /\ e.out = U8!EncodeAll(Written(e))
           [] e.op = "end" -> IsEnd(e) [] OTHER -> FALSE
TNext == \/ l <= TraceLen /\ (IF Ok(E0) THEN Good ELSE Bad)
         \/ Report
TSpec == TBInit /\ [][TNext]_tv
===============================================================================
