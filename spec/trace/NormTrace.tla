-------------------------------- MODULE NormTrace ------------------------------
(***************************************************************************)
(* Observations of the normalization forms, against Normal.                *)
(* IOEnv.WHAT: "form" (the result is the form of the text), "laws",        *)
(* "count" (only appends, counts), "same" (independent of storage), "ways" *)
(* (as "form", the known deviation included).                              *)
(***************************************************************************)
EXTENDS Runs, TraceBase
U8 == INSTANCE Utf8
What == IOEnv.WHAT
Native(utf8, s) == IF utf8 THEN U8!EncodeAll(s) ELSE s
KcGap == "kc-compat-jamo"
(* "good", "bad", or the name of a known deviation *)
Verdict(f, s, Is(_)) == IF Is(Form(f, s)) THEN "good"
                        ELSE IF f = "kc" /\ CompatJamoGap(s) /\ Is(PiecewiseForm("kc", s)) THEN (IF What = "ways" THEN "good" ELSE KcGap)
                        ELSE "bad"
B(x) == IF x THEN "good" ELSE "bad"
-----------------------------------------------------------------------------
(* one text through one form, into an output that holds pre *)
NfForm(e) == IF ~e.unchanged THEN "bad"
             ELSE Verdict(e.f, e.s, LAMBDA x : e.out = Native(e.utf8, e.pre \o x))
(* number of codepoints appended to native content *)
Count(utf8, x) == IF utf8 THEN Len(SelectSeq(x, LAMBDA b : ~U8!IsCont(b))) ELSE Len(x)
RECURSIVE SumOdd(_, _)
SumOdd(st, i) == IF i > Len(st) THEN 0 ELSE st[i] + SumOdd(st, i + 2)
NfCount(e) ==
  LET p == Native(e.utf8, e.pre) IN
  B(/\ e.unchanged /\ Len(e.out) >= Len(p) /\ SubSeq(e.out, 1, Len(p)) = p
    /\ e.ret = Count(e.utf8, SubSeq(e.out, Len(p) + 1, Len(e.out)))
    /\ \A i \in 1 .. Len(e.steps) \div 2 : e.steps[2 * i - 1] = e.steps[2 * i]
    /\ e.steps # << >> => e.ret = SumOdd(e.steps, 1))
Nf(e) == IF What = "count" THEN NfCount(e) ELSE NfForm(e)
(* a run of codepoints that are their own form *)
Id(e) == B(/\ e.n > 0 /\ e.from + e.n - 1 <= 1114111
           /\ What = "form" => \A c \in e.from .. e.from + e.n - 1 : Form(e.f, << c >>) = << c >>)
(* a unit that begins with a letter and ends with "." over and over *)
NfLong(e) ==
  LET ok == e.same /\ e.kept = Native(e.utf8, e.pre)
  IN IF ~ok THEN "bad"
     ELSE IF What = "count" THEN B(e.ret = Count(e.utf8, e.first) * e.times)
     ELSE Verdict(e.f, e.u, LAMBDA x : e.first = Native(e.utf8, x))
(* texts given as runs; the output as << times, native units >> *)
RECURSIVE RunsCount(_, _)
RunsCount(out, i) == IF i > Len(out) THEN 0 ELSE out[i][1] + RunsCount(out, i + 1)
NfRuns(e) ==
  IF What = "count" THEN B(e.unchanged /\ e.ret = RunsCount(e.out, 1))
  ELSE LET w == RunsForm(e.f, e.rs) IN
       IF ~RunsOk(e.rs, e.f \in { "kd", "kc" }) THEN "good"     \* not decided here
       ELSE IF e.f = "kc" /\ CompatJamoGap([ i \in 1 .. Len(e.rs) |-> e.rs[i][1] ]) THEN "good"
       ELSE B(/\ e.unchanged /\ Len(e.out) = Len(w)
              /\ \A i \in 1 .. Len(w) : e.out[i] = << w[i][2] >> \o Native(e.utf8, << w[i][1] >>))
(* several texts into one output *)
Chain(e) ==
  LET n == Len(e.before)
      added == SubSeq(e.after, n + 1, Len(e.after))
      kept == Len(e.after) >= n /\ SubSeq(e.after, 1, n) = e.before
  IN IF ~kept THEN "bad"
     ELSE IF What = "count" THEN B(e.ret = Count(e.utf8, added))
     ELSE Verdict(e.f, e.s, LAMBDA x : added = Native(e.utf8, x))
-----------------------------------------------------------------------------
(* the laws, on what the code returned.  once: D, C, KD, KC of s; eqv: of a *)
(* text q; twice[4 * (a - 1) + b]: form b of form a of s                     *)
(* a text of which KC is not the piecewise result is outside the laws for   *)
(* KC (known deviation), but must still show exactly that deviation          *)
Laws(e) ==
  LET tw(a, b) == e.twice[4 * (a - 1) + b]
      one == e.once
      common == /\ tw(1, 1) = one[1] /\ tw(2, 2) = one[2] /\ tw(3, 3) = one[3]
                /\ tw(2, 1) = one[1] /\ tw(1, 2) = one[2]
                /\ tw(1, 3) = one[3] /\ tw(2, 3) = one[3]
                /\ NFD(e.s) = NFD(e.q) => e.eqv[1] = one[1] /\ e.eqv[2] = one[2]
                /\ NFKD(e.s) = NFKD(e.q) => e.eqv[3] = one[3]
                /\ tw(3, 1) = one[3] /\ tw(4, 3) = one[3]
      compat == /\ tw(4, 4) = one[4] /\ tw(3, 4) = one[4] /\ tw(4, 2) = one[4]
                /\ tw(1, 4) = one[4] /\ tw(2, 4) = one[4] /\ tw(3, 2) = one[4]
                /\ tw(4, 1) = one[3]
                /\ NFKD(e.s) = NFKD(e.q) => e.eqv[4] = one[4]
      \* results the deviation explains: KC of a text with such a gap
      explained(x, s) == x = NFKC(s) \/ (CompatJamoGap(s) /\ x = PiecewiseForm("kc", s))
  IN IF ~common THEN "bad"
     ELSE IF compat THEN "good"
     ELSE IF /\ \E x \in { e.s, e.q, one[1], one[2], one[3], one[4] } : CompatJamoGap(x)
             /\ explained(one[4], e.s) /\ explained(e.eqv[4], e.q)
             /\ \A a \in 1 .. 4 : explained(tw(a, 4), one[a])
             /\ tw(3, 2) = NFC(one[3]) /\ tw(4, 2) = NFC(one[4]) /\ tw(4, 1) = one[3]
          THEN KcGap ELSE "bad"
Ascii(e) == B(\A f \in 1 .. 4 : e.once[f] = e.s)
-----------------------------------------------------------------------------
(* all storages of input and output agree *)
Stores(e) ==
  B(/\ \A i \in 1 .. 4 : e.o8[i] = e.o8[1] /\ e.o32[i] = e.o32[1]
    /\ e.o8[1] = U8!EncodeAll(e.o32[1])
    /\ \A i \in 1 .. Len(e.ret) : e.ret[i] = e.ret[1])
(* canonical ordering, and composition of the ordered text *)
Steps(e) == B(/\ e.ord = CanonicalOrder(e.s)
              /\ LET c == Compose(e.ord) IN
                 e.comp = c /\ e.n = Len(e.s) - Len(c) /\ e.left = e.n)
(* a form put together from its steps: what was there before the text stays *)
(* as it was until composition, which works on all of it                     *)
Build(e) == LET d == DecomposeAll(e.s, e.f \in { "kd", "kc" })
                o == e.pre \o CanonicalOrder(d)
                c == Compose(o)
                k == IF Len(e.dec) < 8 THEN Len(e.dec) ELSE 8
            IN B(/\ Len(e.lt) = k * k
                 /\ \A x, y \in 1 .. k : (e.lt[(x - 1) * k + y] = 1) = (CCC(e.dec[x]) < CCC(e.dec[y]))
                 /\ e.dec = e.pre \o d /\ e.ret = Len(d)
                 /\ e.dec8 = U8!EncodeAll(e.pre \o d)
                 /\ e.ord = o /\ e.ordv = o
                 /\ e.comp = c /\ e.out = c /\ e.n = Len(o) - Len(c) /\ e.left = e.n
                 /\ e.pre = << >> => e.comp = Form(IF e.f = "d" THEN "c" ELSE IF e.f = "kd" THEN "kc" ELSE e.f, e.s))
(* decomposition with a table the user gives: << codepoint >> \o mapping *)
MapBy(tb, c) == LET r == { i \in 1 .. Len(tb) : tb[i][1] = c } IN
                IF r = {} THEN << c >> ELSE Tail(tb[CHOOSE i \in r : TRUE])
RECURSIVE MapAll(_, _, _)
MapAll(tb, x, i) == IF i > Len(x) THEN << >> ELSE MapBy(tb, x[i]) \o MapAll(tb, x, i + 1)
Custom(e) == LET d == MapAll(e.table, e.s, 1) IN
             B(/\ e.out = e.pre \o d /\ e.ret = Len(d) /\ Len(e.each) = Len(e.s)
               /\ \A i \in 1 .. Len(e.s) : e.each[i] = Len(MapBy(e.table, e.s[i])))
Judge(e) == CASE e.op = "nf" -> Nf(e)
              [] e.op = "nfid" -> Id(e)
              [] e.op = "nflong" -> NfLong(e)
              [] e.op = "nfruns" -> NfRuns(e)
              [] e.op = "nfchain" -> Chain(e)
              [] e.op = "laws" -> Laws(e)
              [] e.op = "ascii" -> Ascii(e)
              [] e.op = "nfstore" -> Stores(e)
              [] e.op = "custom" -> Custom(e)
              [] e.op = "build" -> Build(e)
              [] e.op = "step" -> Steps(e)
              [] e.op = "end" -> B(IsEnd(e))
              [] OTHER -> "bad"
TNext == \/ /\ l <= TraceLen
            /\ LET v == Judge(E0) IN IF v = "good" THEN Good ELSE IF v = "bad" THEN Bad ELSE Known(v)
         \/ Report
TSpec == TBInit /\ [][TNext]_tv
===============================================================================
