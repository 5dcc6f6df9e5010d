------------------------------ MODULE FaultsTrace ------------------------------
(***************************************************************************)
(* What operations left behind when memory could not be obtained at each   *)
(* point in turn, and when the function given to the filter threw, against *)
(* Faults.  Each event is one operation with all the points at which it    *)
(* can fail: the outputs found after failures, the outputs found when the  *)
(* operation coped with the failure, and those of doing it again.          *)
(***************************************************************************)
EXTENDS Normal, TraceBase
U8 == INSTANCE Utf8
FT == INSTANCE Faults WITH todo <- << >>, pre <- << >>, at <- 0, work <- << >>, held <- FALSE, dest <- << >>, st <- "done", again <- 0
Native(utf8, s) == IF utf8 THEN U8!EncodeAll(s) ELSE s
(* what the operation appends; the filter works grapheme by grapheme, which *)
(* for KC and compatibility jamo is not the form of the text (see C25)       *)
Appended(e) == CASE e.kind = "form" -> { Form(e.f, e.s) } \cup (IF e.f = "kc" /\ CompatJamoGap(e.s) THEN { PiecewiseForm("kc", e.s) } ELSE {})
                 [] e.kind = "dec" -> { DecomposeAll(e.s, e.f = "kd") }
                 [] e.kind = "self" -> { e.pre }
                 [] e.kind \in { "append", "set" } -> { e.s }
Afterwards(e, w) == IF e.kind = "set" THEN Native(e.utf8, w) ELSE Native(e.utf8, e.pre \o w)
Behind(e, w) == IF e.kind = "set" THEN { Native(e.utf8, e.pre), Native(e.utf8, w) }
                ELSE { Native(e.utf8, e.pre \o SubSeq(w, 1, j)) : j \in 0 .. Len(w) }
Faulted(e) ==
  /\ e.how = 0 /\ e.other = 0 /\ e.same /\ e.leak = 0 /\ e.fine + e.thrown = 2 * e.points
  /\ \E w \in Appended(e) :
       /\ e.full = Afterwards(e, w)
       /\ \A i \in 1 .. Len(e.kept) : e.kept[i] = Afterwards(e, w)
       /\ \A i \in 1 .. Len(e.again) : e.again[i] = Afterwards(e, w)
       /\ LET b == Behind(e, w) IN \A i \in 1 .. Len(e.left) : e.left[i] \in b
(* the operations are those of the machine: each left output is a state of it *)
(* in which st = "thrown"                                                     *)
Functor(e) ==
  LET n == IF e.k <= Len(e.s) THEN e.k ELSE Len(e.s)     \* calls made
      m == IF e.k <= Len(e.s) THEN e.k - 1 ELSE Len(e.s) \* of which returned
      d == e.pre \o SubSeq(e.s, 1, m)
  IN /\ e.same /\ e.calls = SubSeq(e.s, 1, n) /\ e.dest = U8!EncodeAll(d)
     /\ FT!LeftBehind(e.pre, e.s, d)
     /\ IF e.k <= Len(e.s) THEN e.seen = e.k /\ e.ret = -1 ELSE e.seen = 0 /\ e.ret = Len(e.s)
Ok(e) == CASE e.op = "faults" -> Faulted(e)
           [] e.op = "functor" -> Functor(e)
           [] e.op = "end" -> IsEnd(e)
           [] OTHER -> FALSE
TNext == \/ /\ l <= TraceLen /\ (IF Ok(E0) THEN Good ELSE Bad)
         \/ Report
TSpec == TBInit /\ [][TNext]_tv
===============================================================================
