------------------------------- MODULE PagesTrace -------------------------------
(***************************************************************************)
(* Texts cut into pages by the real code, checked against Pages; at the    *)
(* end, what was collected page by page is the text and, for graphemes,    *)
(* its normalization form.                                                 *)
(***************************************************************************)
EXTENDS Normal, TraceBase
U8 == INSTANCE Utf8
VARIABLES ends, at, pages, s, utf8, gr, skip, open
P == INSTANCE Pages
own == << ends, at, pages, s, utf8, gr, open >>
all == << own, tv, skip >>
TInit == TBInit /\ P!PInit(<< >>) /\ s = << >> /\ utf8 = TRUE /\ gr = FALSE /\ skip = TRUE /\ open = FALSE
Native(x) == IF utf8 THEN U8!EncodeAll(x) ELSE x
(* native size of the first i codepoints *)
RECURSIVE SizeTo(_, _)
SizeTo(x, i) == IF i = 0 THEN 0 ELSE SizeTo(x, i - 1) + U8!EncSize(x[i])
Place(e, i) == IF e.utf8 THEN SizeTo(e.s, i) ELSE i
Units(e) == IF e.gr THEN [ i \in 1 .. Len(Segments(ClassesOf(e.s))) |-> Segments(ClassesOf(e.s))[i][2] ]
            ELSE [ i \in 1 .. Len(e.s) |-> i ]
New(e) == /\ e.op = "pstart" /\ (skip \/ ~open)
          /\ s' = e.s /\ utf8' = e.utf8 /\ gr' = e.gr /\ open' = TRUE
          /\ ends' = (LET u == Units(e) IN [ i \in 1 .. Len(u) |-> Place(e, u[i]) ])
          /\ at' = 0 /\ pages' = << >>
Took(e) == /\ e.op = "page" /\ open
           /\ IF e.forced THEN P!Forced(e.limit) ELSE P!Page(e.limit)
           /\ e.out = SubSeq(Native(s), at + 1, at')
           /\ UNCHANGED << s, utf8, gr, open >>
FormOk(e) == /\ e.ret = Len(e.form) - (IF utf8 THEN Len(SelectSeq(e.form, LAMBDA b : U8!IsCont(b))) ELSE 0)
             /\ \/ e.form = Native(Form(e.f, s))
                \/ e.f = "kc" /\ CompatJamoGap(s)         \* recorded under C25, not decided here
End(e) == /\ e.op = "pend" /\ open /\ at = P!Total /\ e.all = Native(s)
          /\ gr => FormOk(e)
          /\ open' = FALSE /\ UNCHANGED << ends, at, pages, s, utf8, gr >>
Accept(e) == New(e) \/ Took(e) \/ End(e)
TNext == \/ /\ l <= TraceLen
            /\ IF E0.op \in { "end", "crash" } THEN (IF IsEnd(E0) /\ (skip \/ ~open) THEN Good ELSE Bad) /\ UNCHANGED << own, skip >>
               ELSE IF skip /\ E0.op # "pstart" THEN Good /\ UNCHANGED << own, skip >>
               ELSE IF ENABLED Accept(E0) THEN Accept(E0) /\ Good /\ skip' = FALSE
               ELSE Bad /\ skip' = TRUE /\ UNCHANGED own
         \/ Report /\ UNCHANGED << own, skip >>
TSpec == TInit /\ [][TNext]_all
===============================================================================
