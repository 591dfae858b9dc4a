------------------------------- MODULE Codec --------------------------------
(* Text forms of byte strings and numbers (C39, C40, C41, C42, C44).         *)
EXTENDS Integers, Sequences
P2 == [k \in 0..16 |-> 2^k]
(* ---- digit strings: a byte string as digits of w bits and back ---- *)
BitB(bs, i) == IF i \div 8 + 1 > Len(bs) THEN 0 ELSE (bs[i \div 8 + 1] \div P2[7 - (i % 8)]) % 2
BitD(ds, w, i) == (ds[i \div w + 1] \div P2[w - 1 - (i % w)]) % 2
RECURSIVE NumB(_, _, _)
NumB(bs, from, w) == IF w = 0 THEN 0 ELSE 2 * NumB(bs, from, w - 1) + BitB(bs, from + w - 1)
RECURSIVE NumD(_, _, _, _)
NumD(ds, w, from, n) == IF n = 0 THEN 0 ELSE 2 * NumD(ds, w, from, n - 1) + BitD(ds, w, from + n - 1)
Digits(bs, w) == [k \in 1..((8 * Len(bs) + w - 1) \div w) |-> NumB(bs, w * (k - 1), w)]
Undigits(ds, w) == [k \in 1..((w * Len(ds)) \div 8) |-> NumD(ds, w, 8 * (k - 1), 8)]
Cut(s, n) == SubSeq(s, 1, IF Len(s) < n THEN Len(s) ELSE n)
(* ---- base32, extended hex alphabet ---- *)
A32 == [d \in 0..31 |-> IF d < 10 THEN 48 + d ELSE 55 + d]
V32(c) == CASE c >= 48 /\ c <= 57 -> c - 48
            [] c >= 65 /\ c <= 86 -> c - 55
            [] c >= 97 /\ c <= 118 -> c - 87
            [] OTHER -> -1
Enc32(bs) == LET d == Digits(bs, 5) IN [k \in 1..Len(d) |-> A32[d[k]]]
Dec32(cs) == Undigits([k \in 1..Len(cs) |-> V32(cs[k])], 5)
(* ---- base64 ---- *)
A64 == [d \in 0..63 |-> CASE d < 26 -> 65 + d [] d >= 26 /\ d < 52 -> 71 + d [] d >= 52 /\ d < 62 -> d - 4 [] d = 62 -> 43 [] d = 63 -> 47]
V64(c) == CASE c >= 65 /\ c <= 90 -> c - 65
            [] c >= 97 /\ c <= 122 -> c - 71
            [] c >= 48 /\ c <= 57 -> c + 4
            [] c = 43 -> 62
            [] c = 47 -> 63
            [] OTHER -> -1
Enc64(bs) == LET d == Digits(bs, 6) IN [k \in 1..Len(d) |-> A64[d[k]]] \o (CASE Len(bs) % 3 = 0 -> <<>> [] Len(bs) % 3 = 1 -> <<61, 61>> [] OTHER -> <<61>>)
Dec64(cs) == LET v == SelectSeq([k \in 1..Len(cs) |-> V64(cs[k])], LAMBDA x : x >= 0) IN Undigits(v, 6)
(* streaming: the encoder keeps the bits it has not shown yet *)
E64Init == [n |-> 0, r |-> 0]
E64Byte(s, b) ==   \* <<state, digits>>
  CASE s.n = 0 -> <<[n |-> 1, r |-> (b % 4) * 16], <<b \div 4>>>>
    [] s.n = 1 -> <<[n |-> 2, r |-> (b % 16) * 4], <<s.r + (b \div 16)>>>>
    [] s.n = 2 -> <<E64Init, <<s.r + (b \div 64), b % 64>>>>
RECURSIVE E64Feed(_, _)
E64Feed(s, bs) == IF bs = <<>> THEN <<s, <<>>>> ELSE
  LET a == E64Byte(s, Head(bs))  z == E64Feed(a[1], Tail(bs)) IN <<z[1], [k \in 1..Len(a[2]) |-> A64[a[2][k]]] \o z[2]>>
E64End(s) == CASE s.n = 0 -> <<>> [] s.n = 1 -> <<A64[s.r], 61, 61>> [] s.n = 2 -> <<A64[s.r], 61>>
(* and the decoder the bits of a byte it cannot complete yet *)
D64Init == [n |-> 0, r |-> 0]
D64Char(s, c) ==
  LET v == V64(c) IN
  CASE v < 0 -> <<s, <<>>>>
    [] v >= 0 /\ s.n = 0 -> <<[n |-> 1, r |-> v * 4], <<>>>>
    [] v >= 0 /\ s.n = 1 -> <<[n |-> 2, r |-> (v % 16) * 16], <<s.r + (v \div 16)>>>>
    [] v >= 0 /\ s.n = 2 -> <<[n |-> 3, r |-> (v % 4) * 64], <<s.r + (v \div 4)>>>>
    [] v >= 0 /\ s.n = 3 -> <<D64Init, <<s.r + v>>>>
RECURSIVE D64Feed(_, _)
D64Feed(s, cs) == IF cs = <<>> THEN <<s, <<>>>> ELSE
  LET a == D64Char(s, Head(cs))  z == D64Feed(a[1], Tail(cs)) IN <<z[1], a[2] \o z[2]>>
(* ---- hexadecimal and decimal ---- *)
HexD(d, up) == IF d < 10 THEN 48 + d ELSE IF up THEN 55 + d ELSE 87 + d
HexV(c) == CASE c >= 48 /\ c <= 57 -> c - 48
             [] c >= 65 /\ c <= 70 -> c - 55
             [] c >= 97 /\ c <= 102 -> c - 87
             [] OTHER -> -1
Hex(bs, up) == LET d == Digits(bs, 4) IN [k \in 1..Len(d) |-> HexD(d[k], up)]
(* what fits into size characters with a terminator, whole bytes only *)
HexFit(bs, up, size) == IF size = 0 THEN <<>> ELSE Cut(Hex(bs, up), 2 * ((size - 1) \div 2))
HexOk(cs) == cs # <<>> /\ Len(cs) % 2 = 0 /\ \A k \in 1..Len(cs) : HexV(cs[k]) >= 0
Unhex(cs) == Undigits([k \in 1..Len(cs) |-> HexV(cs[k])], 4)
(* words of 16-bit limbs, most significant first *)
RECURSIVE DivLimbs(_, _, _)
DivLimbs(w, b, r) == IF w = <<>> THEN <<<<>>, r>> ELSE
  LET x == r * 65536 + Head(w)  z == DivLimbs(Tail(w), b, x % b) IN <<<<x \div b>> \o z[1], z[2]>>
RECURSIVE DecOf(_)
DecOf(w) == LET q == DivLimbs(w, 10, 0)  d == 48 + q[2] IN
  IF \A k \in 1..Len(w) : q[1][k] = 0 THEN <<d>> ELSE DecOf(q[1]) \o <<d>>
(* numbers from text, as strtoul reads them with base 0: five limbs, the first of which is overflow, saturated *)
RECURSIVE MulAdd(_, _, _)
MulAdd(w, b, d) == IF w = <<>> THEN <<d, <<>>>> ELSE   \* <<carry out, limbs>>
  LET z == MulAdd(Tail(w), b, d)  x == Head(w) * b + z[1] IN <<x \div 65536, <<x % 65536>> \o z[2]>>
RECURSIVE NumOf(_, _, _)
NumOf(cs, b, w) == IF cs = <<>> THEN w ELSE
  LET m == MulAdd(w, b, HexV(Head(cs)))[2] IN
  IF m[1] # 0 THEN <<1, 0, 0, 0, 0>> ELSE NumOf(Tail(cs), b, m)
IsSpace(c) == c = 32 \/ (c >= 9 /\ c <= 13)
RECURSIVE SkipSpace(_)
SkipSpace(cs) == IF cs # <<>> /\ IsSpace(Head(cs)) THEN SkipSpace(Tail(cs)) ELSE cs
(* <<base, digits>> of an unsigned number, digits possibly none *)
Based(cs) == IF Len(cs) > 2 /\ cs[1] = 48 /\ cs[2] \in {88, 120} THEN <<16, SubSeq(cs, 3, Len(cs))>>
             ELSE IF cs # <<>> /\ cs[1] = 48 THEN <<8, cs>> ELSE <<10, cs>>
AllDigits(cs, b) == cs # <<>> /\ \A k \in 1..Len(cs) : HexV(cs[k]) >= 0 /\ HexV(cs[k]) < b
ReadNum(t) == LET s == SkipSpace(t)
                  u == IF s # <<>> /\ s[1] = 43 THEN Tail(s) ELSE s
                  b == Based(u)
                  w == IF AllDigits(b[2], b[1]) THEN NumOf(b[2], b[1], <<0, 0, 0, 0, 0>>) ELSE <<1, 0, 0, 0, 0>>
              IN [ok |-> w[1] = 0, v |-> Tail(w)]
(* ---- addresses as byte strings ---- *)
Keep(b, n) == (b \div P2[8 - n]) * P2[8 - n]        \* n leading bits
Bits(p, k) == IF p >= 8 * k THEN 8 ELSE IF p <= 8 * (k - 1) THEN 0 ELSE p - 8 * (k - 1)
AddrLower(a, p) == [k \in 1..Len(a) |-> Keep(a[k], Bits(p, k))]
AddrUpper(a, p) == [k \in 1..Len(a) |-> Keep(a[k], Bits(p, k)) + P2[8 - Bits(p, k)] - 1]
RECURSIVE AddrNext(_)
AddrNext(a) == IF a = <<>> THEN <<>> ELSE
  IF a[Len(a)] = 255 THEN AddrNext(SubSeq(a, 1, Len(a) - 1)) \o <<0>> ELSE [a EXCEPT ![Len(a)] = @ + 1]
(* ---- replacing text, printing bytes ---- *)
Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
RECURSIVE Replace(_, _, _)
Replace(s, o, n) == IF s = <<>> \/ o = <<>> THEN s ELSE
  IF Starts(s, o) THEN n \o Replace(SubSeq(s, Len(o) + 1, Len(s)), o, n) ELSE <<Head(s)>> \o Replace(Tail(s), o, n)
RECURSIVE PrintBody(_)
PrintBody(s) == IF s = <<>> THEN <<>> ELSE
  (CASE Head(s) = 34 -> <<92, 34>>
     [] Head(s) # 34 /\ Head(s) >= 32 /\ Head(s) <= 126 -> <<Head(s)>>
     [] OTHER -> <<92, 120>> \o Hex(<<Head(s)>>, FALSE)) \o PrintBody(Tail(s))
Printed(s) == <<34>> \o PrintBody(s) \o <<34>>
=============================================================================
