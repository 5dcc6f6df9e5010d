------------------------------ MODULE BoundsTrace ------------------------------
(***************************************************************************)
(* Calls of utf8_bounds::check and ::enforce on the range lo..hi of memory *)
(* m: results, memory afterwards, and (probe) the positions read/written.  *)
(* Bounds.tla shows that the loops compute BoundsOk and Repaired.          *)
(***************************************************************************)
EXTENDS OctetRuns, TraceBase
Within(iv, e) == iv = << >> \/ (e.lo <= iv[1] /\ iv[2] < e.hi)
Outside(e, x) == /\ Len(x) = Len(e.m)
                 /\ Slice(x, 0, e.lo) = Slice(e.m, 0, e.lo)
                 /\ Slice(x, e.hi, Len(e.m)) = Slice(e.m, e.hi, Len(e.m))
CheckOk(e) == LET t == Slice(e.m, e.lo, e.hi) IN
  e.chk = BoundsOk(t) /\ e.cm = e.m
EnforceOk(e) == LET t == Slice(e.m, e.lo, e.hi)
                    u == Slice(e.em, e.lo, e.hi) IN
  /\ Outside(e, e.em)
  /\ u = Repaired(t) /\ e.enf = (u = t)
  /\ BoundsOk(u)
  /\ WellFormed(e.m) => WellFormed(u)
(* C28: nothing outside the range is read or written; check writes nothing *)
AccessOk(e) == /\ e.probe => /\ Within(e.crd, e) /\ e.cwr = << >>
                             /\ Within(e.erd, e) /\ Within(e.ewr, e)
               /\ e.cm = e.m /\ Outside(e, e.em)
(* a huge range given as runs of octets *)
GiantOk(e) == CASE IOEnv.WHAT = "check" -> e.chk = ORunsOk(e.rs) /\ e.cm = OCollapse(e.rs, 1, << >>)
                [] IOEnv.WHAT = "enforce" -> /\ e.em = ORepaired(e.rs)
                                             /\ e.enf = (e.em = OCollapse(e.rs, 1, << >>))
                                             /\ ORunsOk(e.em)
                [] OTHER -> FALSE
(* IOEnv.WHAT: which property this run decides *)
Ok(e) == CASE e.op = "bounds" -> (CASE IOEnv.WHAT = "check" -> CheckOk(e)
                                    [] IOEnv.WHAT = "enforce" -> EnforceOk(e)
                                    [] IOEnv.WHAT = "access" -> AccessOk(e))
           [] e.op = "giant" -> GiantOk(e)
           [] e.op = "end" -> IsEnd(e)
           [] OTHER -> FALSE
TNext == \/ l <= TraceLen /\ (IF Ok(E0) THEN Good ELSE Bad)
         \/ Report
TSpec == TBInit /\ [][TNext]_tv
===============================================================================
