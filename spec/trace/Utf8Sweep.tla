------------------------------- MODULE Utf8Sweep -------------------------------
(***************************************************************************)
(* Observations of single codepoints, in runs.  A run of n observations    *)
(* that begins with codepoint `from` is written once: the d-th has the     *)
(* last octet of the codepoint larger by d and values larger by d.         *)
(***************************************************************************)
EXTENDS Utf8, TraceBase
Plus(s, k, d) == [ s EXCEPT ![k] = @ + d ]
(* c between the texts a and z: what iterators at every octet of c do *)
SweepOk(e) ==
  \A d \in 0 .. e.n - 1 :
    LET c == e.from + d
        x == Append(e.p, e.lo + d)
        t == e.a \o x \o e.z
        s == Len(e.a)
        n == Len(x)
        here == StartOf(t, s)
        all == DecodeAll(t)
    IN /\ x = Encode(c) /\ here = s
       /\ Len(e.rd) = n /\ Len(e.nx) = n /\ Len(e.pv) = n
       /\ \A k \in 1 .. n :
            /\ e.rd[k] + c = DecodeAt(t, StartOf(t, s + k - 1))
            /\ e.nx[k] = DecodeAt(t, NextPos(t, s + k - 1))
            /\ e.pv[k] = DecodeAt(t, PrevPos(t, s + k - 1))
            \* equal to the iterator reached from behind, different from both neighbours
            /\ e.eq[k] = 3
       /\ e.rr = << 0 >> /\ DecodeAt(t, PrevPos(t, s + n)) = c
       /\ e.walk = << all[1], all[2] - c, all[3] >>
       /\ e.back = << all[3], all[2] - c, all[1] >>
       /\ Len(all) = 3
WSweepOk(e) ==
  \A d \in 0 .. e.n - 1 :
    LET c == e.from + d
        before == [ i \in 1 .. 10 |-> IF i = 10 THEN 33 ELSE e.fill ]
        x == Encode(c)
    IN /\ Plus(e.out, e.k + 1, d) = [ i \in 1 .. 10 |-> IF i > 2 /\ i <= 2 + Len(x) THEN x[i - 2] ELSE before[i] ]
       /\ e.rb = 0 /\ e.adv = EncSize(c)
ESweepOk(e) ==
  \A d \in 0 .. e.n - 1 : Plus(e.out, Len(e.out), d) = e.pre \o Encode(e.from + d) /\ e.same32
LongOk(e) == LET u == DecodeAll(e.unit) IN
  /\ WellFormed(e.unit) /\ e.first = u /\ e.full = e.times /\ e.rest = << >>
  /\ e.back = e.times * Len(u) /\ e.dist = e.times * Len(u)
Ok(e) == CASE e.op = "sweep" -> SweepOk(e)
           [] e.op = "wsweep" -> WSweepOk(e)
           [] e.op = "esweep" -> ESweepOk(e)
           [] e.op = "long" -> LongOk(e)
           [] e.op = "end" -> IsEnd(e)
           [] OTHER -> FALSE
TNext == \/ l <= TraceLen /\ (IF Ok(E0) THEN Good ELSE Bad)
         \/ Report
TSpec == TBInit /\ [][TNext]_tv
===============================================================================
