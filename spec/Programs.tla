-------------------------------- MODULE Programs --------------------------------
(***************************************************************************)
(* The example programs as a user runs them: a program takes its arguments *)
(* (UTF-8 texts) one by one and prints one line for each; what a line says *)
(* depends on its own argument only.  What a program printed can be given  *)
(* to another one.                                                          *)
(***************************************************************************)
EXTENDS Normal
VARIABLES given, passed
prvars == << given, passed >>
(* given: the texts the first program got; passed: the texts the next one will get *)
Forms4 == { "d", "c", "kd", "kc" }
Programs == { "codepoints", "graphemes" } \cup Forms4
(* a line is a sequence of groups of codepoints; only graphemes make more than one *)
Line(prog, s) == CASE prog = "codepoints" -> << s >>
                   [] prog = "graphemes" -> Pieces(s)
                   [] OTHER -> << Form(prog, s) >>
RECURSIVE Flat(_, _)
Flat(groups, i) == IF i > Len(groups) THEN << >> ELSE groups[i] \o Flat(groups, i + 1)
Says(prog, line, s) == \/ line = Line(prog, s)
                       \/ prog = "kc" /\ CompatJamoGap(s) /\ Len(line) = 1      \* recorded under C25
PrInit(texts) == given = texts /\ passed = texts
Run(prog, lines) == /\ Len(lines) = Len(passed)
                    /\ \A i \in 1 .. Len(lines) : Says(prog, lines[i], passed[i])
                    /\ passed' = [ i \in 1 .. Len(lines) |-> Flat(lines[i], 1) ]
                    /\ UNCHANGED given
(* the exit status of smallest_code *)
Status(s) == s[1] % 256
(* the longest beginning of at most limit octets made of whole pieces *)
RECURSIVE Begin(_, _, _, _)
Begin(pieces, sizes, limit, i) ==
  IF i > Len(pieces) \/ sizes[i] > limit THEN << >>
  ELSE pieces[i] \o Begin(pieces, sizes, limit - sizes[i], i + 1)
===============================================================================
