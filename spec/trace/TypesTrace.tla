------------------------------- MODULE TypesTrace ------------------------------
(***************************************************************************)
(* Programs and whether the compiler accepted them, against Types.         *)
(***************************************************************************)
EXTENDS Types, TraceBase
Should(e) == CASE e.what = "wrap" -> Octets(e.size, e.align, e.integral)
               [] e.what = "append" -> Appends(e.aenc, e.aown, e.benc)
               [] e.what = "convert" -> Converts(e.aown, e.benc)
               [] e.what = "normalize" -> TRUE                \* from any encoding into any
               [] e.what = "mix" -> e.a = e.b                 \* recorded for equal types and for different encodings
               [] e.what = "write" -> Writable(e.const, e.aown)
               [] e.what = "read" -> TRUE
Ok(e) == CASE e.op = "program" -> e.accepted = Should(e)
           [] e.op = "end" -> IsEnd(e) [] OTHER -> FALSE
TNext == \/ l <= TraceLen /\ (IF Ok(E0) THEN Good ELSE Bad)
         \/ Report
TSpec == TBInit /\ [][TNext]_tv
===============================================================================
