------------------------------- MODULE WideTrace -------------------------------
(***************************************************************************)
(* Observations of texts that hold values above U+10FFFF, against Wide:    *)
(* they are encoded, read, stepped over, compared and normalized like any  *)
(* codepoint Unicode says nothing about.                                   *)
(***************************************************************************)
EXTENDS Normal, TraceBase
W == INSTANCE Wide
ReadOk(e) ==
  LET t == W!WEncodeAll(e.s)
      at == W!WStarts(e.s)
      n == Len(e.s)
      of == [ p \in 1 .. Len(t) |-> CHOOSE i \in 1 .. n : at[i] <= p - 1 /\ p - 1 < at[i + 1] ]
  IN /\ e.t = t                                  \* the recorder's own encoder
     /\ e.f = e.s /\ Len(e.b) = n /\ \A i \in 1 .. n : e.b[i] = e.s[n + 1 - i]
     /\ Len(e.at) = Len(t) /\ e.dist = n /\ e.chk
     /\ \A p \in 1 .. Len(t) :
          LET i == of[p] IN
          /\ e.at[p] = e.s[i]
          /\ Len(e.nx[p]) = (IF i = 1 THEN 1 ELSE 2)
          /\ \A k \in 1 .. Len(e.nx[p]) : e.nx[p][k] \in { -1, IF k = 1 THEN at[i + 1] ELSE at[i - 1] }   \* -1: not visible
          /\ e.eq[p] = [ k \in 1 .. at[i + 1] - at[i] |-> at[i] + k - 1 ]
WriteOk(e) == /\ e.out = W!WEncodeAll(e.s) /\ e.rb = e.s /\ e.around /\ e.copied
              /\ e.app = W!WEncodeAll(e.pre \o e.s) /\ e.app32 = e.pre \o e.s
(* e.neg: below zero *)
PropsOk(e) == /\ e.neg \/ (GCB(e.v[1]) = 0 /\ CCC(e.v[1]) = 0 /\ FullDecomposition(e.v[1], TRUE) = e.v)
              /\ e.gcb = 0 /\ e.ccc = 0 /\ ~e.comp /\ e.none /\ e.dec /\ e.kdec
TextOk(e) ==
  LET seg == Segments(ClassesOf(e.s)) IN
  /\ Len(e.g) = 2 * Len(seg)
  /\ \A i \in 1 .. Len(seg) : e.g[2 * i - 1] = seg[i][1] /\ e.g[2 * i] = seg[i][2]
  /\ LET ok(x) == e.ret = Len(x) /\ e.out = (IF e.utf8 THEN W!WEncodeAll(x) ELSE x)
     IN ok(Form(e.f, e.s)) \/ (e.f = "kc" /\ CompatJamoGap(e.s))
Ok(e) == CASE e.op = "wread" -> ReadOk(e) [] e.op = "wwrite" -> WriteOk(e) [] e.op = "wprops" -> PropsOk(e) [] e.op = "wtext" -> TextOk(e)
           [] e.op = "end" -> IsEnd(e) [] OTHER -> FALSE
TNext == \/ l <= TraceLen /\ (IF Ok(E0) THEN Good ELSE Bad)
         \/ Report
TSpec == TBInit /\ [][TNext]_tv
===============================================================================
