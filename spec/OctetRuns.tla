------------------------------- MODULE OctetRuns ------------------------------
(***************************************************************************)
(* check and enforce on octet strings too long to be written out: runs     *)
(* << octet, times >>.  MCOctetRuns compares with the definitions of Utf8. *)
(***************************************************************************)
EXTENDS Utf8

RECURSIVE OWritten(_, _), OTotal(_, _), OCollapse(_, _, _), OTake(_, _, _, _)
OWritten(rs, i) == IF i > Len(rs) THEN << >> ELSE [ j \in 1 .. rs[i][2] |-> rs[i][1] ] \o OWritten(rs, i + 1)
OTotal(rs, i) == IF i = 0 THEN 0 ELSE OTotal(rs, i - 1) + rs[i][2]
OJoin(acc, c, k) == IF Len(acc) > 0 /\ acc[Len(acc)][1] = c
                    THEN [ acc EXCEPT ![Len(acc)] = << c, @[2] + k >> ] ELSE Append(acc, << c, k >>)
OCollapse(rs, i, acc) == IF i > Len(rs) THEN acc ELSE OCollapse(rs, i + 1, OJoin(acc, rs[i][1], rs[i][2]))
(* the first n octets, as runs *)
OTake(rs, n, i, acc) == IF n = 0 THEN acc
                        ELSE IF rs[i][2] >= n THEN Append(acc, << rs[i][1], n >>)
                        ELSE OTake(rs, n - rs[i][2], i + 1, Append(acc, rs[i]))
(* the last n octets, n <= total, written out *)
RECURSIVE OLast(_, _, _, _)
OLast(rs, n, i, acc) == IF n = 0 THEN acc
                        ELSE LET k == IF rs[i][2] < n THEN rs[i][2] ELSE n
                             IN OLast(rs, n - k, i - 1, [ j \in 1 .. k |-> rs[i][1] ] \o acc)
(* no lead octet farther from the end can overrun it *)
Reach == 8
Alone(s) == [ i \in 1 .. Len(s) |-> << s[i], 1 >> ]
ORunsOk(rs) ==
  LET n == OTotal(rs, Len(rs))
  IN IF n <= Reach THEN BoundsOk(OWritten(rs, 1))
     ELSE /\ ~IsCont(rs[1][1])
          /\ LET t == OLast(rs, Reach, Len(rs), << >>) IN \A p \in 0 .. Reach - 1 : ~Overruns(t, p)
ORepaired(rs) ==
  LET n == OTotal(rs, Len(rs))
  IN IF n <= Reach THEN OCollapse(Alone(Repaired(OWritten(rs, 1))), 1, << >>)
     ELSE LET head == OTake(rs, n - Reach, 1, << >>)
              t == OLast(rs, Reach, Len(rs), << >>)
              lead(i) == \A j \in 1 .. i : IsCont(head[j][1])
              h == [ i \in 1 .. Len(head) |-> IF lead(i) THEN << QuestionMark, head[i][2] >> ELSE head[i] ]
              broken == Incomplete(t) \cup (IF lead(Len(head)) THEN LeadingConts(t) ELSE {})
              u == [ i \in 1 .. Reach |-> IF i - 1 \in broken THEN QuestionMark ELSE t[i] ]
          IN OCollapse(h \o Alone(u), 1, << >>)
===============================================================================
