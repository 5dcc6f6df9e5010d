--------------------------------- MODULE Pages ---------------------------------
(***************************************************************************)
(* Cutting a text into pages of limited size, page by page, without        *)
(* splitting its units (codepoints, or graphemes): each page holds as many *)
(* whole units as fit; a unit that does not fit at all is taken alone.     *)
(* The text is given by the positions of its units in native units.        *)
(***************************************************************************)
EXTENDS Integers, Sequences
VARIABLES ends, at, pages
pgvars == << ends, at, pages >>
(* ends: end position of each unit, in rising order *)
PInit(e) == ends = e /\ at = 0 /\ pages = << >>
Ends == { ends[i] : i \in 1 .. Len(ends) }
Total == IF ends = << >> THEN 0 ELSE ends[Len(ends)]
Greatest(S) == CHOOSE x \in S : \A y \in S : x >= y
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
(* what truncating the rest to limit native units leaves *)
Cut(limit) == Greatest({ p \in Ends \cup { at } : at <= p /\ p <= at + limit })
Page(limit) == /\ at < Total /\ Cut(limit) > at
               /\ at' = Cut(limit) /\ pages' = Append(pages, << at, at' >>) /\ UNCHANGED ends
(* nothing fits: the next unit *)
Forced(limit) == /\ at < Total /\ Cut(limit) = at
                 /\ at' = Least({ p \in Ends : p > at }) /\ pages' = Append(pages, << at, at' >>) /\ UNCHANGED ends
===============================================================================
