-------------------------------- MODULE Bounds --------------------------------
(***************************************************************************)
(* utf8_bounds::check and utf8_bounds::enforce, one action per loop step.  *)
(* The range is mem[lo+1..hi]; memory outside it belongs to somebody else. *)
(***************************************************************************)
EXTENDS Utf8, FiniteSets
VARIABLES mem, lo, hi,      \* memory and the range
          fn,               \* "check" or "enforce"
          pc, b, w, n, r,   \* program counter, begin, where, walkback, rest
          res,              \* what is returned
          touched,          \* positions read or written
          orig              \* history: mem at the call
bvars == << mem, lo, hi, fn, pc, b, w, n, r, res, touched, orig >>
MaxWalkback == 7
At(p) == mem[p + 1]
Touch(ps) == touched' = touched \cup ps

BInit(m, l, h, f) ==
  /\ mem = m /\ orig = m /\ lo = l /\ hi = h /\ fn = f /\ touched = {}
  /\ pc = f /\ b = l /\ w = h /\ n = 0 /\ r = 0 /\ res = TRUE

Return(v) == pc' = "done" /\ res' = v
(* check *)
CheckEmpty == /\ pc = "check" /\ b = hi /\ Return(TRUE)
              /\ UNCHANGED << mem, lo, hi, fn, b, w, n, r, touched, orig >>
CheckFirst == /\ pc = "check" /\ b # hi /\ Touch({b})
              /\ IF IsCont(At(b)) THEN Return(FALSE) ELSE pc' = "walk" /\ res' = TRUE
              /\ UNCHANGED << mem, lo, hi, fn, b, w, n, r, orig >>
CheckWalk == /\ pc = "walk"
             /\ IF n < MaxWalkback /\ w # b
                THEN /\ w' = w - 1 /\ n' = n + 1 /\ Touch({w - 1})
                     /\ IF IsLead(At(w - 1)) /\ LeadSize(At(w - 1)) > n + 1
                        THEN Return(FALSE) ELSE UNCHANGED << pc, res >>
                ELSE /\ Return(res) /\ UNCHANGED << w, n, touched >>
             /\ UNCHANGED << mem, lo, hi, fn, b, r, orig >>
(* enforce *)
EnforceFront == /\ pc = "enforce"
                /\ IF b # hi
                   THEN /\ Touch({b})
                        /\ IF IsCont(At(b))
                           THEN /\ mem' = [ mem EXCEPT ![b + 1] = QuestionMark ]
                                /\ b' = b + 1 /\ res' = FALSE /\ UNCHANGED pc
                           ELSE pc' = "back" /\ UNCHANGED << mem, b, res >>
                   ELSE pc' = "back" /\ UNCHANGED << mem, b, res, touched >>
                /\ UNCHANGED << lo, hi, fn, w, n, r, orig >>
EnforceBack == /\ pc = "back"
               /\ IF n < MaxWalkback /\ w # b
                  THEN /\ w' = w - 1 /\ n' = n + 1 /\ Touch({w - 1})
                       /\ IF IsLead(At(w - 1)) /\ LeadSize(At(w - 1)) > n + 1
                          THEN pc' = "replace" /\ r' = w - 1 /\ res' = FALSE
                          ELSE UNCHANGED << pc, r, res >>
                  ELSE pc' = "done" /\ UNCHANGED << w, n, r, res, touched >>
               /\ UNCHANGED << mem, lo, hi, fn, b, orig >>
(* the lead octet, then the continuation octets directly following it *)
EnforceReplace == /\ pc = "replace"
                  /\ mem' = [ mem EXCEPT ![r + 1] = QuestionMark ]
                  /\ r' = r + 1
                  /\ Touch({r} \cup (IF r + 1 # hi THEN {r + 1} ELSE {}))
                  /\ pc' = IF r + 1 # hi /\ IsCont(At(r + 1)) THEN "replace" ELSE "back"
                  /\ UNCHANGED << lo, hi, fn, b, w, n, res, orig >>
BNext == CheckEmpty \/ CheckFirst \/ CheckWalk \/ EnforceFront \/ EnforceBack \/ EnforceReplace

-----------------------------------------------------------------------------
Range == Slice(mem, lo, hi)
OrigRange == Slice(orig, lo, hi)
Done == pc = "done"
CheckIsExact   == Done /\ fn = "check" => res = BoundsOk(OrigRange) /\ mem = orig
EnforceRepairs == Done /\ fn = "enforce" =>
                    /\ Range = Repaired(OrigRange)
                    /\ res = (Range = OrigRange)
EnforceThenCheck == Done /\ fn = "enforce" => BoundsOk(Range)
InsideRange == /\ touched \subseteq lo .. hi - 1
               /\ \A p \in 0 .. Len(mem) - 1 : p \notin lo .. hi - 1 => mem[p + 1] = orig[p + 1]
(* a slice of well-formed text: well-formed afterwards, complete codepoints unchanged *)
SliceRepaired == Done /\ fn = "enforce" /\ WellFormed(orig) =>
                   /\ WellFormed(Range)
                   /\ \A p \in lo .. hi - 1 :
                        LET s == StartOf(orig, p) IN
                        IF s >= lo /\ s + LeadSize(orig[s + 1]) <= hi
                        THEN mem[p + 1] = orig[p + 1] ELSE mem[p + 1] = QuestionMark
===============================================================================
