------------------------------ MODULE MemoryTrace ------------------------------
(* Any trace recorded under AddressSanitizer: no step may end in a memory    *)
(* error.  What the steps compute is judged by the other trace modules.      *)
EXTENDS TraceBase
MemoryError == { "SIGSEGV", "SIGBUS", "SIGABRT" }
(* memcheck complains about memory or a value that was never set *)
Ok(e) == /\ e.op = "crash" => e.what \notin MemoryError
         /\ e.op # "memcheck"
TNext == \/ l <= TraceLen /\ (IF Ok(E0) THEN Good ELSE Bad)
         \/ Report
TSpec == TBInit /\ [][TNext]_tv
===============================================================================
