------------------------------- MODULE UnitsTrace ------------------------------
(***************************************************************************)
(* Programs of several source files that include headers in some order.    *)
(* Every library of headers that keeps the rules of Headers lets all of    *)
(* them compile and link (MCHeaders); what the use of a header gives does  *)
(* not depend on the file it is in.                                        *)
(***************************************************************************)
EXTENDS Normal, TraceBase
U8 == INSTANCE Utf8
RECURSIVE Times(_, _, _), Rows(_, _, _), UserMap(_, _), Some(_, _, _)
Times(s, i, k) == IF i > Len(s) THEN << >> ELSE << Len(s[i]) >> \o Times(s, i + 1, k)
SizesOf(s) == Times(Pieces(s), 1, 0)
Rows(s, i, compat) == IF i > Len(s) THEN << >>
  ELSE (IF IsHangulS(s[i]) THEN << >> ELSE FullDecomposition(s[i], compat)) \o Rows(s, i + 1, compat)
UserMap(s, i) == IF i > Len(s) THEN << >>
  ELSE (IF IsHangulS(s[i]) THEN HangulDecomposition(s[i]) ELSE IF s[i] = 97 THEN << 98, 99 >> ELSE << s[i] >>) \o UserMap(s, i + 1)
Some(t, n, k) == IF k = 0 \/ n < 0 THEN << >> ELSE << IF U8!BoundsOk(SubSeq(t, 1, n)) THEN 1 ELSE 0 >> \o Some(t, n - 1, k - 1)
Counted(out) == Append(out, Len(out))
Composed(s) == LET c == Compose(s) IN Append(c, Len(s) - Len(c))
Answer(kind, s) ==
  LET t == U8!EncodeAll(s) IN
  CASE kind = "copy" -> s
    [] kind = "nothing" -> << >>
    [] kind = "filter" -> Append(s, 2 * Len(s))
    [] kind = "sizes" -> SizesOf(s)
    [] kind = "order" -> CanonicalOrder(s)
    [] kind = "compose" -> Composed(s)
    [] kind = "decompose" -> DecomposeAll(s, FALSE)
    [] kind = "kdecompose" -> DecomposeAll(s, TRUE)
    [] kind = "user" -> UserMap(s, 1)
    [] kind \in { "d", "c", "kd", "kc" } -> Counted(Form(kind, s))
    [] kind = "encode" -> t
    [] kind = "bounds" -> Some(t, Len(t), 4)
    [] kind = "starts" -> [ i \in 1 .. Len(t) |-> IF U8!IsCont(t[i]) THEN 0 ELSE 1 ]
    [] kind = "version" -> << 1, 1, 1 >>
    [] kind = "ccc" -> [ i \in 1 .. Len(s) |-> CCC(s[i]) ]
    [] kind = "gcb" -> ClassesOf(s)
    [] kind = "pairs" -> [ i \in 1 .. Len(s) - 1 |-> Composite(s[i], s[i + 1]) ]
    [] kind = "rows" -> Rows(s, 1, FALSE)
    [] kind = "krows" -> Rows(s, 1, TRUE)
Ok(e) == CASE e.op \in { "unit", "link" } -> e.accepted
           [] e.op = "macro" -> e.own                            \* headers define no macros but their own
           [] e.op = "use" -> \/ e.out = Answer(e.kind, e.s)
                           \/ (e.kind = "compose" /\ e.s # CanonicalOrder(e.s))     \* says nothing of text out of order
           [] e.op = "end" -> IsEnd(e)
           [] OTHER -> FALSE
TNext == \/ l <= TraceLen /\ (IF Ok(E0) THEN Good ELSE Bad)
         \/ Report
TSpec == TBInit /\ [][TNext]_tv
===============================================================================
