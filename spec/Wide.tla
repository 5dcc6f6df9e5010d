--------------------------------- MODULE Wide ---------------------------------
(***************************************************************************)
(* The encoding scheme of UTF-8 taken to all values of 31 bits: up to six  *)
(* octets, the first announces how many, the others are continuations.     *)
(* Up to U+10FFFF it is the standard encoding (module Utf8).               *)
(***************************************************************************)
EXTENDS Utf8
MaxWide == 2147483647
WSize(v) == IF v < 128 THEN 1 ELSE IF v < 2048 THEN 2 ELSE IF v < 65536 THEN 3
            ELSE IF v < 2097152 THEN 4 ELSE IF v < 67108864 THEN 5 ELSE 6
WMark(n) == CASE n = 2 -> 192 [] n = 3 -> 224 [] n = 4 -> 240 [] n = 5 -> 248 [] n = 6 -> 252
RECURSIVE WTail(_, _)
WTail(v, k) == IF k = 0 THEN << >> ELSE Append(WTail(v \div 64, k - 1), 128 + (v % 64))
RECURSIVE Shift(_, _)
Shift(v, k) == IF k = 0 THEN v ELSE Shift(v \div 64, k - 1)
WEncode(v) == LET n == WSize(v) IN
              IF n = 1 THEN << v >> ELSE << WMark(n) + Shift(v, n - 1) >> \o WTail(v, n - 1)
RECURSIVE WEncodeFrom(_, _), WStartsFrom(_, _, _)
WEncodeFrom(s, i) == IF i > Len(s) THEN << >> ELSE WEncode(s[i]) \o WEncodeFrom(s, i + 1)
WEncodeAll(s) == WEncodeFrom(s, 1)
(* position of the first octet of each value, then the end *)
WStartsFrom(s, i, p) == IF i > Len(s) THEN << p >> ELSE << p >> \o WStartsFrom(s, i + 1, p + WSize(s[i]))
WStarts(s) == WStartsFrom(s, 1, 0)
WDecodeAt(t, p) ==
  LET b == t[p + 1]  n == LeadSize(b)
      room == CASE n = 1 -> 128 [] n = 2 -> 32 [] n = 3 -> 16 [] n = 4 -> 8 [] n = 5 -> 4 [] n = 6 -> 2
  IN DecodeRest(t, p + 1, n - 1, b % room)
===============================================================================
