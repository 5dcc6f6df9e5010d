------------------------------- MODULE TraceBase -------------------------------
(***************************************************************************)
(* Reading a recorded trace line by line.  A line the specification does   *)
(* not allow is remembered in bad; a named deviation in known.  The last   *)
(* step prints a summary for the runner.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLES l, bad, known
Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceLen == Len(Trace)
tv == << l, bad, known >>
TBInit == l = 1 /\ bad = << >> /\ known = << >>
E0 == Trace[l]
(* the recorder's own last line; a crash event is never allowed *)
IsEnd(e) == e.op = "end" /\ l = TraceLen
Good == l' = l + 1 /\ UNCHANGED << bad, known >>
(* after MaxBad lines the verdict is known *)
MaxBad == 40
Bad == /\ l' = IF Len(bad) + 1 >= MaxBad THEN TraceLen + 1 ELSE l + 1
       /\ bad' = Append(bad, l) /\ UNCHANGED known
Known(id) == l' = l + 1 /\ known' = Append(known, << l, id >>) /\ UNCHANGED bad
Report == /\ l = TraceLen + 1 /\ l' = l + 1 /\ UNCHANGED << bad, known >>
          /\ PrintT("SUMMARY " \o ToJson([ lines |-> TraceLen, bad |-> bad, known |-> known ]))
(* traces of independent observations: Ok(e) decides each line alone *)
===============================================================================
