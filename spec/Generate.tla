------------------------------- MODULE Generate -------------------------------
(***************************************************************************)
(* How the generators make the tables from a Unicode database.             *)
(*                                                                         *)
(* A database is a function Map from some codepoints to the codepoints     *)
(* they are mapped to, which never leads back to where it started.  The    *)
(* decomposition generators replace mapped codepoints inside of mappings,  *)
(* one mapping after the other in an order that nobody chose (the keys of  *)
(* a hash), until a whole pass changes nothing.  The composition generator *)
(* turns mappings around and drops what may not be composed.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES db,      \* the database: [ map, ccc, compat, excl ]
          d,       \* the mappings so far
          todo,    \* codepoints left in this pass
          changed, \* something was replaced in this pass
          done
gvars == << db, d, todo, changed, done >>
Mapped(m) == DOMAIN m
RECURSIVE Full(_, _), FullSeq(_, _, _)
Full(m, c) == IF c \in Mapped(m) THEN FullSeq(m, m[c], 1) ELSE << c >>
FullSeq(m, s, i) == IF i > Len(s) THEN << >> ELSE Full(m, s[i]) \o FullSeq(m, s, i + 1)
RECURSIVE Replace(_, _, _)
Replace(m, s, i) == IF i > Len(s) THEN << >>
                    ELSE (IF s[i] \in Mapped(m) THEN m[s[i]] ELSE << s[i] >>) \o Replace(m, s, i + 1)
Replaces(m, c) == \E i \in 1 .. Len(m[c]) : m[c][i] \in Mapped(m)
(* only the canonical mappings, or all of them *)
Source(b, compat) == IF compat THEN b.map
                     ELSE [ c \in Mapped(b.map) \ b.compat |-> b.map[c] ]
GInit(bases) == \E b \in bases, k \in BOOLEAN :
                  /\ db = b /\ d = Source(b, k) /\ todo = Mapped(Source(b, k)) /\ changed = FALSE /\ done = FALSE
Expand(c) == /\ c \in todo /\ ~done
             /\ d' = [ d EXCEPT ![c] = Replace(d, d[c], 1) ]
             /\ changed' = (changed \/ Replaces(d, c)) /\ todo' = todo \ { c }
             /\ UNCHANGED << db, done >>
Pass == /\ todo = {} /\ ~done
        /\ IF changed THEN todo' = Mapped(d) /\ done' = FALSE ELSE todo' = {} /\ done' = TRUE
        /\ changed' = FALSE /\ UNCHANGED << db, d >>
GNext == Pass \/ \E c \in todo : Expand(c)
(* no step changes what the mappings stand for *)
Meaning == LET compat == Mapped(d) = Mapped(db.map)
               m == IF compat THEN db.map ELSE Source(db, FALSE)
           IN \A c \in Mapped(d) : FullSeq(m, d[c], 1) = Full(m, c)
(* when it stops, the tables hold the full decompositions *)
Complete == done => \A c \in Mapped(d) : d[c] = Full(IF Mapped(d) = Mapped(db.map) THEN db.map ELSE Source(db, FALSE), c)
Stops == <>done
(* the pairs that are composed, and into what *)
Compositions(b) ==
  LET m == Source(b, FALSE) IN
  { << m[c][1], m[c][2], c >> : c \in { c \in Mapped(m) :
      Len(m[c]) = 2 /\ b.ccc[c] = 0 /\ b.ccc[m[c][1]] = 0 /\ c \notin b.excl } }
(* composing what was decomposed in one step leads back; what is composed *)
(* is decomposed to the pair                                               *)
Inverse == LET t == Compositions(db) IN
           \A x \in t : Source(db, FALSE)[x[3]] = << x[1], x[2] >> /\ \A y \in t : x[1] = y[1] /\ x[2] = y[2] => x = y
===============================================================================
