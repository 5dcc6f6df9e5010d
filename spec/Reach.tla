--------------------------------- MODULE Reach ---------------------------------
(***************************************************************************)
(* How far an operation looks.  A text is n codepoints 0 .. n-1, position  *)
(* n is the end; B are the positions where a grapheme begins, and n.  An   *)
(* operation on a codepoint iterator looks at the codepoint it is at, the  *)
(* one it goes to, and the ones next to these; one on a grapheme iterator  *)
(* likewise at graphemes.  A pass over the text is made of these           *)
(* operations, so that its work is proportional to the length of the text: *)
(* no codepoint is looked at by more than a few of the operations.         *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
Min2(x, y) == IF x < y THEN x ELSE y
Max2(x, y) == IF x > y THEN x ELSE y
Span(lo, hi, n) == << Max2(lo, 0), Min2(hi, n) >>          \* lo <= x < hi
(* operations of a codepoint iterator at position i                        *)
CpSpan(op, n, i) == IF op \in { "dec", "pdec", "rread" } THEN Span(i - 2, i + 2, n) ELSE Span(i - 1, i + 2, n)
(* the grapheme around a position, the ones next to it                     *)
GrFirst(B, n, i) == IF i >= n THEN n ELSE CHOOSE x \in B : x <= i /\ \A y \in B : y <= i => y <= x
After(B, n, x) == IF x >= n THEN n ELSE CHOOSE y \in B : y > x /\ \A z \in B : z > x => y <= z
Before(B, x) == IF x <= 0 THEN 0 ELSE CHOOSE y \in B : y < x /\ \A z \in B : z < x => z <= y
(* operations of a grapheme iterator in the grapheme around position i     *)
GrSpan(op, B, n, i) ==
  LET s == GrFirst(B, n, i)  e == After(B, n, s)  e2 == After(B, n, e)
  IN Span(Before(B, s), IF op \in { "ginc", "gpinc" } THEN After(B, n, e2) ELSE e2, n)
-----------------------------------------------------------------------------
(* passes over a text *)
CONSTANTS FromStart            \* a mutant: an operation looks at all in front of it as well
VARIABLES len, grs, kind, at, touched, todo
rvars == << len, grs, kind, at, touched, todo >>
Ops == [ forward |-> << "eq", "read", "inc" >>, backward |-> << "eq", "dec", "read" >>, graphemes |-> << "geq", "gread", "ginc" >> ]
Look(op) == LET w == IF kind = "graphemes" THEN GrSpan(op, grs, len, at) ELSE CpSpan(op, len, at)
            IN IF FromStart THEN << 0, w[2] >> ELSE w
Touch(w) == touched' = [ x \in 0 .. len - 1 |-> IF w[1] <= x /\ x < w[2] THEN touched[x] + 1 ELSE touched[x] ]
Start(m, C, k) == /\ len = m /\ grs = C /\ kind = k /\ at = IF k = "backward" THEN m ELSE 0
                  /\ touched = [ x \in 0 .. m - 1 |-> 0 ] /\ todo = 1
Finished == at = IF kind = "backward" THEN 0 ELSE len
Move(op) == CASE op = "inc" -> at + 1 [] op = "dec" -> at - 1 [] op = "ginc" -> After(grs, len, at) [] OTHER -> at
Step == /\ ~Finished
        /\ LET op == Ops[kind][todo] IN Touch(Look(op)) /\ at' = Move(op)
        /\ todo' = (todo % 3) + 1 /\ UNCHANGED << len, grs, kind >>
RNext == Step
(* each of the three operations of a step looks at the neighbours too      *)
Most == 12
RECURSIVE Sum(_, _)
Sum(f, m) == IF m = 0 THEN 0 ELSE f[m - 1] + Sum(f, m - 1)
Seldom == \A x \in 0 .. len - 1 : touched[x] <= Most
Proportional == Sum(touched, len) <= Most * len
Everything == Finished => \A x \in 0 .. len - 1 : touched[x] > 0
===============================================================================
