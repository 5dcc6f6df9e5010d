-------------------------------- MODULE Faults --------------------------------
(***************************************************************************)
(* Operations that append to a text, when memory cannot be obtained at     *)
(* some point.  An operation handles its pieces one after the other; each  *)
(* is prepared in memory of its own (work, held) and then moved to the     *)
(* output.  A failure may come at any point; it leaves the operation,      *)
(* which is then begun again with another output.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences
VARIABLES todo,    \* the pieces as they are to be appended
          pre,     \* what the output held before
          at,      \* pieces prepared so far
          work,    \* what is left of the piece being moved to the output
          held,    \* memory held for it
          dest,    \* the output
          st,      \* "run", "thrown", "done"
          again    \* how often the operation has been begun again
ftvars == << todo, pre, at, work, held, dest, st, again >>
RECURSIVE Join(_, _)
Join(ps, i) == IF i > Len(ps) THEN << >> ELSE ps[i] \o Join(ps, i + 1)
FtInit(ps, p) == /\ todo = ps /\ pre = p /\ at = 0 /\ work = << >> /\ held = FALSE
                 /\ dest = p /\ st = "run" /\ again = 0
Prepare == /\ st = "run" /\ ~held /\ at < Len(todo)
           /\ at' = at + 1 /\ work' = work \o todo[at + 1] /\ held' = TRUE
           /\ UNCHANGED << todo, pre, dest, st, again >>
Move(n) == /\ st = "run" /\ held /\ n \in 1 .. Len(work)
           /\ dest' = dest \o SubSeq(work, 1, n) /\ work' = SubSeq(work, n + 1, Len(work))
           /\ UNCHANGED << todo, pre, at, held, st, again >>
Drop == /\ st = "run" /\ held /\ work = << >> /\ held' = FALSE
        /\ UNCHANGED << todo, pre, at, work, dest, st, again >>
Return == /\ st = "run" /\ ~held /\ at = Len(todo) /\ st' = "done"
          /\ UNCHANGED << todo, pre, at, work, held, dest, again >>
(* keep: what is left of the work is not dropped when the operation is left *)
Fail(keep) == /\ st = "run" /\ st' = "thrown" /\ held' = FALSE
              /\ work' = (IF keep THEN work ELSE << >>)
              /\ UNCHANGED << todo, pre, at, dest, again >>
Again == /\ st = "thrown" /\ st' = "run" /\ again' = again + 1 /\ at' = 0 /\ dest' = pre
         /\ UNCHANGED << todo, pre, work, held >>
-----------------------------------------------------------------------------
(* what an operation that appends full may leave behind when it fails *)
LeftBehind(p, full, x) == \E j \in 0 .. Len(full) : x = p \o SubSeq(full, 1, j)
Whole == st = "thrown" => LeftBehind(pre, Join(todo, 1), dest)
Complete == st = "done" => dest = pre \o Join(todo, 1)
NothingHeld == st # "run" => ~held
===============================================================================
