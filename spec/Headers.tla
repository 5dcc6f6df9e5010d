-------------------------------- MODULE Headers --------------------------------
(***************************************************************************)
(* Source files that include headers.  A header has a guard, includes      *)
(* others in some order, and then declares its names (one name for each    *)
(* header is enough), which may need the names of others.  A header may    *)
(* also define something that a program can have once only.  The compiler  *)
(* reads a source file header by header; a program is made of several.     *)
(* Whoever includes a header can use what it declares, whatever else was   *)
(* included before, between and after, and in every file of the program.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS H, MaxReads, MaxUnits
VARIABLES g,          \* [ guard, body, uses, strong ]: the headers
          stack,      \* of << header, next include >>: what is being read
          defined,    \* guards that are defined in this file
          declared,   \* headers whose names are declared in this file
          wanted,     \* headers this file included itself
          broken,     \* a name was used that was not declared
          reads, unit,
          once        \* header -> the files that have its definition
hvars == << g, stack, defined, declared, wanted, broken, reads, unit, once >>

RECURSIVE Reach(_, _, _)
Reach(b, hs, n) == IF n = 0 THEN hs ELSE Reach(b, hs \cup UNION { { b[h][i] : i \in 1 .. Len(b[h]) } : h \in hs }, n - 1)
Includes(b, h) == Reach(b, { b[h][i] : i \in 1 .. Len(b[h]) }, Cardinality(H))
DistinctGuards(x) == \A a, b \in H : a # b => x.guard[a] # x.guard[b]
NoCycle(x) == \A h \in H : h \notin Includes(x.body, h)
SelfContained(x) == \A h \in H : x.uses[h] \subseteq Includes(x.body, h)
NothingStrong(x) == x.strong = {}

HInit == /\ stack = << >> /\ defined = {} /\ declared = {} /\ wanted = {} /\ broken = FALSE
         /\ reads = 0 /\ unit = 1 /\ once = [ h \in H |-> {} ]
Enter(s, h) == IF g.guard[h] \in defined THEN stack' = s /\ UNCHANGED defined
               ELSE stack' = Append(s, << h, 1 >>) /\ defined' = defined \cup { g.guard[h] }
(* the next #include of the source file *)
Read(h) == /\ stack = << >> /\ reads < MaxReads /\ reads' = reads + 1
           /\ wanted' = wanted \cup { h } /\ Enter(stack, h)
           /\ UNCHANGED << g, declared, broken, unit, once >>
Top == stack[Len(stack)]
Below == SubSeq(stack, 1, Len(stack) - 1)
(* the next #include of a header *)
Inner == /\ stack # << >> /\ Top[2] <= Len(g.body[Top[1]])
         /\ Enter(Append(Below, << Top[1], Top[2] + 1 >>), g.body[Top[1]][Top[2]])
         /\ UNCHANGED << g, declared, wanted, broken, reads, unit, once >>
(* its declarations *)
Declare == /\ stack # << >> /\ Top[2] > Len(g.body[Top[1]])
           /\ broken' = (broken \/ ~(g.uses[Top[1]] \subseteq declared))
           /\ declared' = declared \cup { Top[1] }
           /\ once' = IF Top[1] \in g.strong THEN [ once EXCEPT ![Top[1]] = @ \cup { unit } ] ELSE once
           /\ stack' = Below /\ UNCHANGED << g, defined, wanted, reads, unit >>
(* another source file of the same program *)
NextUnit == /\ stack = << >> /\ reads > 0 /\ unit < MaxUnits /\ unit' = unit + 1
            /\ defined' = {} /\ declared' = {} /\ wanted' = {} /\ reads' = 0
            /\ UNCHANGED << g, stack, broken, once >>
HNext == (\E h \in H : Read(h)) \/ Inner \/ Declare \/ NextUnit

Compiles == ~broken
Available == stack = << >> => wanted \subseteq declared
Links == \A h \in H : Cardinality(once[h]) <= 1
===============================================================================
