------------------------------ MODULE AccessTrace ------------------------------
(***************************************************************************)
(* Which positions each operation read and wrote, against the footprints   *)
(* the operations may have.  Access.tla shows that the algorithms of the   *)
(* iterators have these footprints on every well-formed text.              *)
(* r, w: lowest and highest position read / written (or nothing).          *)
(***************************************************************************)
EXTENDS Utf8, TraceBase
Inside(iv, lo, hi) == iv = << >> \/ (lo <= iv[1] /\ iv[2] <= hi)
(* the highest position that may be looked at: the end position only by    *)
(* operations on UTF-8 that are given it                                   *)
Last(e, given) == IF e.utf8 /\ given THEN e.len ELSE e.len - 1
Reads == { "read", "read2", "inc", "pinc" }
Backs == { "dec", "pdec", "rread" }
Compares == { "eq", "ne", "copy" }
Writes == { "write", "wread", "winc" }
Ranges == { "codepoints", "graphemes", "backwards", "place", "geq", "geqpos", "ginc",
            "append", "appendg", "append32", "form d", "form c", "form kd", "form kc" }
(* any octets the bounds check accepts: as in MCAccess, InitAny            *)
AnyOk(e) ==
  LET n == Len(e.t) IN
  /\ BoundsOk(e.t) /\ e.w = << >>
  /\ CASE e.what = "xread" -> Inside(e.r, 0, n - 1) /\ e.r # << >> /\ e.to \in 0 .. n
       [] e.what \in { "xinc", "xpinc" } -> Inside(e.r, 0, n - 1) /\ e.to \in 0 .. n
       [] e.what \in { "xdec", "xpdec" } -> Inside(e.r, 0, IF e.p = n THEN n ELSE n - 1) /\ e.to \in 0 .. e.p - 1
       [] e.what \in { "xeq", "xne" } ->
            /\ Inside(e.r, 0, IF e.p # e.q /\ (e.p = n \/ e.q = n) THEN n ELSE n - 1)
            /\ e.p = e.q => e.res = (e.what = "xeq")
            /\ e.p < n /\ e.q = n => e.res = (e.what = "xne")
       [] OTHER -> FALSE
Ok(e) ==
  CASE e.op = "end" -> IsEnd(e)
    [] e.op = "crash" -> FALSE
    [] e.op = "any" -> AnyOk(e)
    [] e.what \in Reads -> e.w = << >> /\ Inside(e.r, 0, Last(e, FALSE)) /\ e.r # << >>
    [] e.what \in Backs -> e.w = << >> /\ Inside(e.r, 0, Last(e, e.p = e.len))
    [] e.what \in Compares -> e.w = << >> /\ Inside(e.r, 0, Last(e, e.p = e.len \/ e.q = e.len))
    \* after writing the iterator may rest on the last octet of what was written
    [] e.what = "write" -> Inside(e.w, e.p, e.p + e.size - 1) /\ e.w # << >> /\ Inside(e.r, 0, Last(e, FALSE))
    [] e.what \in { "wread", "winc" } -> e.w = << >> /\ Inside(e.r, 0, Last(e, FALSE))
    [] e.what \in Ranges -> e.w = << >> /\ Inside(e.r, 0, Last(e, TRUE))
    [] OTHER -> FALSE
TNext == \/ l <= TraceLen /\ (IF Ok(E0) THEN Good ELSE Bad)
         \/ Report
TSpec == TBInit /\ [][TNext]_tv
===============================================================================
