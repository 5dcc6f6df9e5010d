-------------------------------- MODULE Native --------------------------------
(***************************************************************************)
(* A cursor over a native string whose octets do not lie next to each      *)
(* other: octet i is at address i * Step, between two octets there is      *)
(* rubbish, and so there is before and behind them.  The cursor knows an   *)
(* address and how to go to the next and to the last octet; nothing else.  *)
(* The octets it uses are those a cursor over the bare text (Utf8) uses.   *)
(***************************************************************************)
EXTENDS Utf8
CONSTANTS Step, Rubbish,
          Neighbours        \* TRUE: the wrong machine that takes the address after an octet for the next one
VARIABLES t,                \* the text
          at,               \* address of the cursor
          p,                \* its position in the bare text
          val, want         \* the codepoint read last, and what it should have been
nvars == << t, at, p, val, want >>
Mem(a) == IF a >= 0 /\ a % Step = 0 /\ a \div Step < Len(t) THEN t[a \div Step + 1] ELSE Rubbish
Fwd(a) == a + Step
Bck(a) == a - Step
RECURSIVE ToStart(_), FwdBy(_, _), Rest(_, _, _)
ToStart(a) == IF IsCont(Mem(a)) THEN ToStart(Bck(a)) ELSE a
FwdBy(a, n) == IF n = 0 THEN a ELSE FwdBy(Fwd(a), n - 1)
Rest(a, k, acc) == IF k = 0 THEN acc ELSE Rest(IF Neighbours THEN a + 1 ELSE Fwd(a), k - 1, acc * 64 + (Mem(IF Neighbours THEN a + 1 ELSE Fwd(a)) % 64))
Value(a) == LET n == LeadSize(Mem(a)) IN
            Rest(a, n - 1, Mem(a) % (CASE n = 1 -> 128 [] n = 2 -> 32 [] n = 3 -> 16 [] OTHER -> 8))
NInc == /\ p < Len(t)
        /\ LET s == ToStart(at) IN at' = FwdBy(s, LeadSize(Mem(s)))
        /\ p' = NextPos(t, p) /\ UNCHANGED << t, val, want >>
NDec == /\ StartOf(t, p) > 0
        /\ at' = ToStart(Bck(IF p = Len(t) THEN at ELSE ToStart(at)))
        /\ p' = PrevPos(t, p) /\ UNCHANGED << t, val, want >>
NRead == /\ p < Len(t)
         /\ val' = Value(ToStart(at)) /\ want' = DecodeAt(t, StartOf(t, p)) /\ UNCHANGED << t, at, p >>
NPlace == \E q \in 0 .. Len(t) : p' = q /\ at' = q * Step /\ UNCHANGED << t, val, want >>
NNext == NInc \/ NDec \/ NRead \/ NPlace
Same == at = p * Step
Right == val = want
===============================================================================
