------------------------------- MODULE Pipeline -------------------------------
(***************************************************************************)
(* u5e::filter over the graphemes of a text with one of the four           *)
(* normalization forms as the operation, at the grain of the code:         *)
(*   filter: one grapheme at a time                                        *)
(*     decompose its codepoints one at a time into a scratch buffer        *)
(*     order each run of combining marks                                   *)
(*     compose in place, reading ahead of writing                          *)
(*     append the buffer to the output and add up the count                *)
(***************************************************************************)
EXTENDS Normal
VARIABLES form, src,
          g, ci,                     \* grapheme number, codepoint in it
          phase,
          buf,                       \* scratch buffer ("decomposed")
          run,                       \* ordering: where the next run begins
          in, oi, st, last, comps,   \* composing: read, write, starter, class, count
          total,                     \* codepoints decomposed in this grapheme
          out, cnt, pre
pvars == << form, src, g, ci, phase, buf, run, in, oi, st, last, comps, total, out, cnt, pre >>

PInit(f, s, before) ==
  /\ form = f /\ src = s /\ out = before /\ pre = before
  /\ g = 1 /\ ci = 0 /\ phase = "grapheme" /\ buf = << >> /\ run = 0
  /\ in = 0 /\ oi = 0 /\ st = 0 /\ last = -1 /\ comps = 0 /\ total = 0 /\ cnt = 0

Seg == Segments(ClassesOf(src))
Compat == form \in { "kd", "kc" }
Composing == form \in { "c", "kc" }

NextGrapheme ==
  /\ phase = "grapheme"
  /\ IF g > Len(Seg) THEN phase' = "done" /\ UNCHANGED << ci, buf, total >>
     ELSE phase' = "decompose" /\ ci' = Seg[g][1] /\ buf' = << >> /\ total' = 0
  /\ UNCHANGED << form, src, g, run, in, oi, st, last, comps, out, cnt, pre >>
Decompose ==
  /\ phase = "decompose"
  /\ IF ci < Seg[g][2]
     THEN LET d == FullDecomposition(src[ci + 1], Compat) IN
          /\ buf' = buf \o d /\ total' = total + Len(d) /\ ci' = ci + 1
          /\ UNCHANGED << phase, run >>
     ELSE phase' = "order" /\ run' = 1 /\ UNCHANGED << buf, total, ci >>
  /\ UNCHANGED << form, src, g, in, oi, st, last, comps, out, cnt, pre >>
RECURSIVE RunEnd(_, _), MinClassAt(_, _, _, _)
RunEnd(s, i) == IF i > Len(s) \/ CCC(s[i]) = 0 THEN i ELSE RunEnd(s, i + 1)
MinClassAt(s, i, e, best) == IF i >= e THEN best
                             ELSE MinClassAt(s, i + 1, e, IF CCC(s[i]) < CCC(s[best]) THEN i ELSE best)
(* stable selection: the first of the lowest class comes first *)
RECURSIVE SortRun(_, _, _)
SortRun(s, b, e) ==
  IF b >= e THEN s
  ELSE LET m == MinClassAt(s, b, e, b)
       IN SortRun(TLCEval([ i \in 1 .. Len(s) |-> IF i = b THEN s[m]
                                          ELSE IF i > b /\ i <= m THEN s[i - 1] ELSE s[i] ]), b + 1, e)
OrderRun ==
  /\ phase = "order"
  /\ IF run <= Len(buf)
     THEN LET e == RunEnd(buf, run) IN
          /\ buf' = SortRun(buf, run, e) /\ run' = e + 1
          /\ UNCHANGED << phase, in, oi, st, last, comps >>
     ELSE /\ phase' = IF Composing THEN "compose" ELSE "append"
          /\ in' = 1 /\ oi' = IF Composing THEN 1 ELSE Len(buf) + 1
          /\ st' = 0 /\ last' = -1 /\ comps' = 0 /\ UNCHANGED << buf, run >>
  /\ UNCHANGED << form, src, g, ci, total, out, cnt, pre >>
ComposeOne ==
  /\ phase = "compose"
  /\ IF in > Len(buf) THEN phase' = "append" /\ UNCHANGED << buf, in, oi, st, last, comps >>
     ELSE LET c == buf[in]
              free == st # 0 /\ last < CCC(c)
              x == IF free THEN Composite(buf[st], c) ELSE NoComposite IN
          /\ in' = in + 1 /\ UNCHANGED phase
          /\ IF x # NoComposite
             THEN /\ buf' = [ buf EXCEPT ![st] = x ] /\ comps' = comps + 1
                  /\ UNCHANGED << oi, st, last >>
             ELSE /\ buf' = [ buf EXCEPT ![oi] = c ] /\ oi' = oi + 1 /\ UNCHANGED comps
                  /\ IF CCC(c) = 0 THEN st' = oi /\ last' = -1 ELSE last' = CCC(c) /\ UNCHANGED st
  /\ UNCHANGED << form, src, g, ci, run, total, out, cnt, pre >>
AppendBuf ==
  /\ phase = "append"
  /\ out' = out \o SubSeq(buf, 1, oi - 1)
  /\ cnt' = cnt + (total - comps)
  /\ g' = g + 1 /\ phase' = "grapheme"
  /\ UNCHANGED << form, src, ci, buf, run, in, oi, st, last, comps, total, pre >>
PNext == NextGrapheme \/ Decompose \/ OrderRun \/ ComposeOne \/ AppendBuf

-----------------------------------------------------------------------------
Finished == phase = "done"
Result == SubSeq(out, Len(pre) + 1, Len(out))
(* C22-C25, with the known deviation of KC *)
ResultIsForm ==
  Finished => \/ Result = Form(form, src)
              \/ form = "kc" /\ CompatJamoGap(src) /\ Result = PiecewiseForm("kc", src)
(* C27 *)
CountIsRight == cnt = Len(out) - Len(pre)
OnlyAppends == SubSeq(out, 1, Len(pre)) = pre
AppendOnly == [][ /\ Len(out') >= Len(out) /\ SubSeq(out', 1, Len(out)) = out
                  /\ src' = src /\ form' = form ]_pvars
(* C28: in-place composition never writes ahead of reading *)
WritesBehindReads == phase = "compose" => oi <= in /\ st < in
===============================================================================
