----------------------------- MODULE ProgramsTrace -----------------------------
(***************************************************************************)
(* Runs of the example programs with arguments, parsed back from what they *)
(* printed, against Programs.                                               *)
(***************************************************************************)
EXTENDS Programs, TraceBase
U8 == INSTANCE Utf8
VARIABLES skip
all == << prvars, tv, skip >>
TInit == TBInit /\ PrInit(<< >>) /\ skip = TRUE
SizesOf(ps) == [ i \in 1 .. Len(ps) |-> Len(U8!EncodeAll(ps[i])) ]
Singles(s) == [ i \in 1 .. Len(s) |-> << s[i] >> ]
CutOk(e) == LET ps == IF e.graphemes THEN Pieces(e.s) ELSE Singles(e.s) IN e.out = Begin(ps, SizesOf(ps), e.limit, 1)
Given(e) == e.op = "given" /\ given' = e.texts /\ passed' = e.texts
Stage(e) == /\ e.op = "run" /\ e.status = 0 /\ e.texts = passed /\ Run(e.prog, e.lines)
Accept(e) == Given(e) \/ Stage(e)
Alone(e) == CASE e.op = "first" -> e.status = Status(e.s)
              [] e.op = "fixed" -> e.status = 0 /\ e.lines = << << Form(e.prog, e.s) >> >>
              [] e.op = "cut" -> CutOk(e)
              [] e.op = "end" -> IsEnd(e)
              [] OTHER -> FALSE
TNext == \/ /\ l <= TraceLen
            /\ IF E0.op \notin { "given", "run" } THEN (IF Alone(E0) THEN Good ELSE Bad) /\ UNCHANGED << prvars, skip >>
               ELSE IF skip /\ E0.op # "given" THEN Good /\ UNCHANGED << prvars, skip >>
               ELSE IF ENABLED Accept(E0) THEN Accept(E0) /\ Good /\ skip' = FALSE
               ELSE Bad /\ skip' = TRUE /\ UNCHANGED prvars
         \/ Report /\ UNCHANGED << prvars, skip >>
TSpec == TInit /\ [][TNext]_all
===============================================================================
