-------------------------------- MODULE MCWide --------------------------------
(* the scheme is injective, self-synchronizing and extends the standard one, *)
(* at and around every power of two, and on texts of such values             *)
EXTENDS Wide, TLC
CONSTANTS Near, MaxLen
VARIABLES s
RECURSIVE Pow(_)
Pow(n) == IF n = 0 THEN 1 ELSE 2 * Pow(n - 1)
Edges == { Pow(n) + d : n \in 7 .. 30, d \in -Near .. Near } \cup { MaxWide - d : d \in 0 .. Near } \cup 0 .. 3
Letters == { 97, 255, 65535, 2097151, 67108863, 67108864, MaxWide }
Init == s \in { << v >> : v \in Edges }
Next == /\ Len(s) < MaxLen /\ \A i \in 1 .. Len(s) : s[i] \in Letters
        /\ \E v \in Letters : s' = Append(s, v)
Spec == Init /\ [][Next]_s
t == WEncodeAll(s)
at == WStarts(s)
Octets == \A i \in 1 .. Len(t) : t[i] \in Octet
Decodes == \A i \in 1 .. Len(s) : WDecodeAt(t, at[i]) = s[i]
Standard == \A i \in 1 .. Len(s) : s[i] <= MaxCodepoint => WEncode(s[i]) = Encode(s[i])
Shortest == \A i \in 1 .. Len(s) : LET n == WSize(s[i]) IN n = 1 \/ s[i] >= (CASE n = 2 -> 128 [] n = 3 -> 2048 [] n = 4 -> 65536 [] n = 5 -> 2097152 [] n = 6 -> 67108864)
SelfSync == \A p \in 0 .. Len(t) - 1 :
              /\ IsCont(t[p + 1]) <=> ~\E i \in 1 .. Len(s) : at[i] = p
              /\ ~IsCont(t[p + 1]) => \E i \in 1 .. Len(s) : at[i] = p /\ p + LeadSize(t[p + 1]) = at[i + 1]
              /\ at[CHOOSE i \in 1 .. Len(s) : at[i] <= p /\ p < at[i + 1]] = StartOf(t, p)
Accepted == BoundsOk(t) /\ Repaired(t) = t
===============================================================================
