--------------------------------- MODULE Algos --------------------------------
(***************************************************************************)
(* What the standard algorithms compute on a sequence S (and Q).           *)
(* Positions are 0 .. Len(S), Len(S) meaning none.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences
B(x) == IF x THEN 1 ELSE 0
First(S, Is(_)) == LET hits == { p \in 0 .. Len(S) - 1 : Is(p) }
                   IN IF hits = {} THEN Len(S) ELSE CHOOSE p \in hits : \A q \in hits : p <= q
Last(S, Is(_)) == LET hits == { p \in 0 .. Len(S) - 1 : Is(p) }
                  IN IF hits = {} THEN Len(S) ELSE CHOOSE p \in hits : \A q \in hits : p >= q
At(S, p) == S[p + 1]
Members(S) == { S[i] : i \in 1 .. Len(S) }
Times(S, c) == Len(SelectSeq(S, LAMBDA x : x = c))
Reverse(S) == [ i \in 1 .. Len(S) |-> S[Len(S) + 1 - i] ]
Min(a, b) == IF a < b THEN a ELSE b
Mismatch(S, Q) == LET n == Min(Len(S), Len(Q))
                      d == { p \in 0 .. n - 1 : At(S, p) # At(Q, p) }
                  IN IF d = {} THEN n ELSE CHOOSE p \in d : \A q \in d : p <= q
Less(S, Q) == LET m == Mismatch(S, Q) IN
              IF m = Len(S) THEN Len(S) < Len(Q) ELSE m < Len(Q) /\ At(S, m) < At(Q, m)
Occurs(S, Q, p) == p + Len(Q) <= Len(S) /\ SubSeq(S, p + 1, p + Len(Q)) = Q
RECURSIVE Sum(_), Unique(_, _)
Sum(S) == IF S = << >> THEN 0 ELSE S[1] + Sum(Tail(S))
Unique(S, i) == IF i > Len(S) THEN << >>
                ELSE (IF i > 1 /\ S[i] = S[i - 1] THEN << >> ELSE << S[i] >>) \o Unique(S, i + 1)
SortedUntil(S) == First(S, LAMBDA p : p > 0 /\ At(S, p) < At(S, p - 1))
(* the results of the algorithm called name *)
Result(name, S, Q, i, c, k, d) ==
  LET n == Len(S) IN
  CASE name = "distance" -> << n >>
    [] name = "next" -> << i + k, i + k >>
    [] name = "prev" -> << i + n - k, i + n - k >>
    [] name = "find" -> LET p == First(S, LAMBDA x : At(S, x) = c) IN << p, p >>
    [] name = "find_last" -> << First(Reverse(S), LAMBDA x : At(Reverse(S), x) = c) >>
    [] name = "find_if_not" -> << First(S, LAMBDA x : At(S, x) > c) >>
    [] name = "count" -> << Times(S, c), Times(S, c) >>
    [] name = "tests" -> LET low == Len(SelectSeq(S, LAMBDA x : x <= c)) IN << B(low = n), B(low > 0), B(low = 0) >>
    [] name = "adjacent_find" -> << First(S, LAMBDA p : p < n - 1 /\ At(S, p) = At(S, p + 1)) >>
    [] name = "max_element" -> << First(S, LAMBDA p : \A q \in 0 .. n - 1 : At(S, p) >= At(S, q)) >>
    [] name = "min_element" -> << First(S, LAMBDA p : \A q \in 0 .. n - 1 : At(S, p) <= At(S, q)) >>
    [] name = "equal" -> << B(S = Q) >>
    [] name = "mismatch" -> << Mismatch(S, Q), Mismatch(S, Q) >>
    [] name = "lexicographical_compare" -> << B(Less(S, Q)) >>
    [] name = "search" -> << IF Q = << >> THEN 0 ELSE First(S, LAMBDA p : Occurs(S, Q, p)) >>
    [] name = "find_end" -> << IF Q = << >> THEN n ELSE Last(S, LAMBDA p : Occurs(S, Q, p)) >>
    [] name = "find_first_of" -> << First(S, LAMBDA p : At(S, p) \in Members(Q)) >>
    [] name = "copy" -> S
    [] name = "reverse_copy" -> Reverse(S)
    [] name = "sum" -> << Sum(S) >>
    [] name = "unique_copy" -> Unique(S, 1)
    [] name = "remove_copy" -> SelectSeq(S, LAMBDA x : x # c)
    [] name = "replace_copy" -> [ x \in 1 .. n |-> IF S[x] = c THEN d ELSE S[x] ]
    [] name = "rotate_copy" -> SubSeq(S, k + 1, n) \o SubSeq(S, 1, k)
    [] name = "copy_n" -> SubSeq(S, 1, k)
    [] name = "copy_if" -> SelectSeq(S, LAMBDA x : x <= c)
    [] name = "plus_one" -> [ x \in 1 .. n |-> S[x] + 1 ]
    [] name = "is_permutation" -> << B(Len(S) = Len(Q) /\ \A x \in Members(S) : Times(S, x) = Times(Q, x)) >>
    [] name = "partition_copy" -> SelectSeq(S, LAMBDA x : x <= c) \o SelectSeq(S, LAMBDA x : x > c)
    [] name = "bounds" -> << First(S, LAMBDA p : At(S, p) >= c), First(S, LAMBDA p : At(S, p) > c), B(c \in Members(S)) >>
    [] name = "is_sorted" -> << B(SortedUntil(S) = n), SortedUntil(S) >>
===============================================================================
