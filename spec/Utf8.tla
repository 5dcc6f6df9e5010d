-------------------------------- MODULE Utf8 --------------------------------
(***************************************************************************)
(* Octets, UTF-8 encoding and codepoint positions.                         *)
(*                                                                         *)
(* A text is a sequence of octets t.  Positions are 0..Len(t) as in the    *)
(* code (position p denotes octet t[p+1]; Len(t) is the end position).     *)
(***************************************************************************)
EXTENDS Integers, Sequences

Octet == 0 .. 255
MaxCodepoint == 1114111                            \* U+10FFFF
Codepoint == 0 .. MaxCodepoint

IsCont(b) == b \div 64 = 2                         \* 10xxxxxx
IsLead(b) == b \div 64 = 3                         \* 11xxxxxx
IsAscii(b) == b < 128

(* number of octets announced by a first octet (leading one bits; 1 for   *)
(* an ASCII octet and for a stray continuation octet)                      *)
LeadSize(b) == IF b < 192 THEN 1 ELSE IF b < 224 THEN 2 ELSE IF b < 240 THEN 3
               ELSE IF b < 248 THEN 4 ELSE IF b < 252 THEN 5
               ELSE IF b < 254 THEN 6 ELSE IF b < 255 THEN 7 ELSE 8

EncSize(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2
              ELSE IF c < 65536 THEN 3 ELSE 4

Encode(c) ==
  CASE EncSize(c) = 1 -> << c >>
    [] EncSize(c) = 2 -> << 192 + (c \div 64), 128 + (c % 64) >>
    [] EncSize(c) = 3 -> << 224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64) >>
    [] EncSize(c) = 4 -> << 240 + (c \div 262144), 128 + ((c \div 4096) % 64),
                            128 + ((c \div 64) % 64), 128 + (c % 64) >>

RECURSIVE EncodeFrom(_, _)
EncodeFrom(s, i) == IF i > Len(s) THEN << >> ELSE Encode(s[i]) \o EncodeFrom(s, i + 1)
EncodeAll(s) == EncodeFrom(s, 1)

-----------------------------------------------------------------------------
(* Codepoint structure of a text *)

(* the position of the first octet of the codepoint that contains position *)
(* p; the end position stands for itself                                   *)
RECURSIVE StartOf(_, _)
StartOf(t, p) == IF p >= Len(t) THEN p
                 ELSE IF IsCont(t[p + 1]) /\ p > 0 THEN StartOf(t, p - 1) ELSE p

(* value of the codepoint whose first octet is at position p *)
RECURSIVE DecodeRest(_, _, _, _)
DecodeRest(t, p, k, acc) ==
  IF k = 0 THEN acc ELSE DecodeRest(t, p + 1, k - 1, acc * 64 + (t[p + 1] % 64))
DecodeAt(t, p) ==
  LET b == t[p + 1]
      n == LeadSize(b)
      pow == CASE n = 1 -> 128 [] n = 2 -> 32 [] n = 3 -> 16 [] OTHER -> 8
  IN DecodeRest(t, p + 1, n - 1, b % pow)

(* positions after/before the codepoint that contains position p *)
NextPos(t, p) == LET s == StartOf(t, p) IN s + LeadSize(t[s + 1])
PrevPos(t, p) == StartOf(t, StartOf(t, p) - 1)

(* ValidAt(t, p): a complete shortest-form sequence for a codepoint starts at p *)
ValidAt(t, p) ==
  LET n == LeadSize(t[p + 1])
  IN /\ n <= 4 /\ p + n <= Len(t) /\ ~IsCont(t[p + 1])
     /\ \A i \in 1 .. n - 1 : IsCont(t[p + i + 1])
     /\ LET c == DecodeAt(t, p) IN c \in Codepoint /\ EncSize(c) = n

RECURSIVE WellFormedFrom(_, _)
WellFormedFrom(t, p) == \/ p = Len(t)
                        \/ p < Len(t) /\ ValidAt(t, p) /\ WellFormedFrom(t, p + LeadSize(t[p + 1]))
WellFormed(t) == WellFormedFrom(t, 0)

RECURSIVE DecodeFrom(_, _)
DecodeFrom(t, p) == IF p >= Len(t) THEN << >>
                    ELSE << DecodeAt(t, p) >> \o DecodeFrom(t, p + LeadSize(t[p + 1]))
DecodeAll(t) == DecodeFrom(t, 0)

(* codepoint start positions, in order (without the end position) *)
RECURSIVE StartsFrom(_, _)
StartsFrom(t, p) == IF p >= Len(t) THEN << >>
                    ELSE << p >> \o StartsFrom(t, p + LeadSize(t[p + 1]))
Starts(t) == StartsFrom(t, 0)

(* octets of positions p (inclusive) to q (exclusive) *)
Slice(t, p, q) == SubSeq(t, p + 1, q)

-----------------------------------------------------------------------------
(* Bounds (declarative definitions; BoundsMachine.tla has the loops) *)

Overruns(t, p) == IsLead(t[p + 1]) /\ p + LeadSize(t[p + 1]) > Len(t)

BoundsOk(t) == \/ t = << >>
               \/ /\ ~IsCont(t[1])
                  /\ \A p \in 0 .. Len(t) - 1 : ~Overruns(t, p)

QuestionMark == 63
LeadingConts(t) == { p \in 0 .. Len(t) - 1 : \A q \in 0 .. p : IsCont(t[q + 1]) }
(* a lead octet that overruns, with the continuation octets right after it *)
Incomplete(t) ==
  { p \in 0 .. Len(t) - 1 :
      \E q \in 0 .. p : /\ Overruns(t, q)
                        /\ \A r \in q + 1 .. p : IsCont(t[r + 1]) }
Repaired(t) == LET broken == LeadingConts(t) \cup Incomplete(t)
               IN [ i \in 1 .. Len(t) |-> IF i - 1 \in broken THEN QuestionMark ELSE t[i] ]
=============================================================================
