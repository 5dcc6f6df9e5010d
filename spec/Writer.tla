-------------------------------- MODULE Writer --------------------------------
(***************************************************************************)
(* Writing codepoints through a mutable UTF-8 iterator (utf8_iterator):    *)
(*     *it = c;  ++it;  *it = d;  ...                                      *)
(* buf is the memory the iterator walks over, at the raw octet, and fresh  *)
(* says that the iterator stands where a codepoint starts (or in space to  *)
(* be filled).  Right after a write the raw position is on the last octet  *)
(* of what was written, which "stands for" the written codepoint.          *)
(***************************************************************************)
EXTENDS Utf8
VARIABLES buf,      \* the octets
          at,       \* raw position
          fresh,    \* TRUE: at the start of something; FALSE: just written
          cp,       \* what was written last at this place (when ~fresh)
          orig,     \* history: the buffer at the beginning
          from,     \* history: where the run of writes began
          written   \* history: codepoints written since then
wvars == << buf, at, fresh, cp, orig, from, written >>

Overlay(b, p, e) == [ k \in 1 .. Len(b) |-> IF k > p /\ k <= p + Len(e) THEN e[k - p] ELSE b[k] ]

WInit(b, p) == /\ buf = b /\ orig = b /\ at = p /\ from = p
               /\ fresh = TRUE /\ cp = 0 /\ written = << >>
Write(c) == /\ fresh /\ at + EncSize(c) <= Len(buf)
            /\ buf' = Overlay(buf, at, Encode(c))
            /\ at' = at + EncSize(c) - 1
            /\ fresh' = FALSE /\ cp' = c /\ written' = Append(written, c)
            /\ UNCHANGED << orig, from >>
ReadBack(v) == /\ ~fresh /\ v = cp /\ UNCHANGED wvars
Advance == /\ ~fresh
           /\ at' = at + 1 /\ fresh' = TRUE /\ cp' = 0
           /\ UNCHANGED << buf, orig, from, written >>

(* C05: the written octets are the concatenation of the encodings and      *)
(* nothing else changed.                                                    *)
WrittenIsConcatenation ==
  buf = Overlay(orig, from, EncodeAll(written))
ReadsBack == ~fresh => /\ StartOf(buf, at) = at + 1 - EncSize(cp)
                       /\ DecodeAt(buf, StartOf(buf, at)) = cp
                       /\ StartOf(buf, at) + LeadSize(buf[StartOf(buf, at) + 1]) = at + 1
PositionFollows == at + (IF fresh THEN 0 ELSE 1) = from + Len(EncodeAll(written))
===============================================================================
