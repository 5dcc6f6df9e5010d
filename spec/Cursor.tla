-------------------------------- MODULE Cursor --------------------------------
(***************************************************************************)
(* Codepoint iterators over UTF-8 octets (utf8_const_iterator and          *)
(* utf8_iterator while nothing is written).  One action per operation of   *)
(* the code.  pos[i] is the raw octet the iterator rests on, which may be  *)
(* inside a codepoint.                                                      *)
(***************************************************************************)
EXTENDS Utf8, FiniteSets
CONSTANT Cursors
VARIABLES text, pos, out

vars == << text, pos, out >>
Nothing == << "none" >>
End == Len(text)
Start(i) == StartOf(text, pos[i])         \* the codepoint it stands for
AtEnd(i) == pos[i] = End

(* A position p' that stands for the same codepoint as p.  Reading leaves  *)
(* the raw position either where it was or on the codepoint's first octet. *)
SameCodepoint(p, q) == StartOf(text, p) = StartOf(text, q)

Seek(i, p) == /\ p \in 0 .. End
              /\ pos' = [ pos EXCEPT ![i] = p ] /\ out' = Nothing /\ UNCHANGED text
IncPre(i)  == /\ ~AtEnd(i)
              /\ pos' = [ pos EXCEPT ![i] = NextPos(text, pos[i]) ]
              /\ out' = << "at", NextPos(text, pos[i]) >> /\ UNCHANGED text
IncPost(i) == /\ ~AtEnd(i)
              /\ pos' = [ pos EXCEPT ![i] = NextPos(text, pos[i]) ]
              /\ out' = << "at", pos[i] >> /\ UNCHANGED text
DecPre(i)  == /\ Start(i) > 0
              /\ pos' = [ pos EXCEPT ![i] = PrevPos(text, pos[i]) ]
              /\ out' = << "at", PrevPos(text, pos[i]) >> /\ UNCHANGED text
DecPost(i) == /\ Start(i) > 0
              /\ pos' = [ pos EXCEPT ![i] = PrevPos(text, pos[i]) ]
              /\ out' = << "at", pos[i] >> /\ UNCHANGED text
Copy(i, j) == /\ pos' = [ pos EXCEPT ![i] = pos[j] ] /\ out' = Nothing /\ UNCHANGED text
(* rest: where the iterator rests after reading *)
Read(i, rest) == /\ ~AtEnd(i) /\ rest \in { pos[i], Start(i) }
                 /\ pos' = [ pos EXCEPT ![i] = rest ]
                 /\ out' = << "value", DecodeAt(text, Start(i)) >> /\ UNCHANGED text
(* reading a std::reverse_iterator whose base is iterator i *)
RRead(i)   == /\ Start(i) > 0
              /\ out' = << "value", DecodeAt(text, PrevPos(text, pos[i])) >>
              /\ UNCHANGED << text, pos >>
Eq(i, j)   == /\ out' = << "bool", Start(i) = Start(j) >> /\ UNCHANGED << text, pos >>
Ne(i, j)   == /\ out' = << "bool", Start(i) # Start(j) >> /\ UNCHANGED << text, pos >>

TypeOK == /\ \A i \in Cursors : pos[i] \in 0 .. End
          /\ \A p \in 1 .. Len(text) : text[p] \in Octet

(* refinement mapping to CodepointArray *)
Index(p) == Cardinality({ q \in 1 .. StartOf(text, p) : ~IsCont(text[q]) })
AbsIdx == [ i \in Cursors |-> Index(pos[i]) ]
AbsOut == IF out[1] = "at" THEN << "at", Index(out[2]) >> ELSE out
===============================================================================
