-------------------------------- MODULE Sum ---------------------------------
(* CRC-32C (C45) and lookup3 (C46), on 32-bit words as pairs of 16-bit      *)
(* halves <<high, low>>.                                                     *)
EXTENDS Integers, Sequences, Bitwise
X2(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
Q2 == [k \in 0..16 |-> 2^k]
Shr1(a) == <<a[1] \div 2, (a[2] \div 2) + 32768 * (a[1] % 2)>>
Shr8(a) == <<a[1] \div 256, (a[2] \div 256) + 256 * (a[1] % 256)>>
Poly == <<33526, 15224>>           \* 82F6 3B78, Castagnoli reflected
RECURSIVE Shift(_, _)
Shift(c, k) == IF k = 0 THEN c ELSE Shift(IF c[2] % 2 = 1 THEN X2(Shr1(c), Poly) ELSE Shr1(c), k - 1)
Table == [b \in 0..255 |-> Shift(<<0, b>>, 8)]
CrcByte(c, b) == X2(Shr8(c), Table[(c[2] % 256) ^^ b])
RECURSIVE CrcFrom(_, _, _)
CrcFrom(c, bs, k) == IF k > Len(bs) THEN c ELSE CrcFrom(CrcByte(c, bs[k]), bs, k + 1)
Inv(c) == <<65535 - c[1], 65535 - c[2]>>
Crc(bs) == Inv(CrcFrom(<<65535, 65535>>, bs, 1))
(* bit at a time, straight from the definition *)
RECURSIVE CrcBits(_, _, _)
CrcBits(c, bs, k) == IF k > Len(bs) THEN c ELSE CrcBits(Shift(<<c[1], c[2] ^^ bs[k]>>, 8), bs, k + 1)
(* eight bytes at a time, as the sliced implementation does it: table n is table 0 moved on by n zero bytes *)
RECURSIVE Moved(_, _)
Moved(c, n) == IF n = 0 THEN c ELSE Moved(X2(Shr8(c), Table[c[2] % 256]), n - 1)
Slice8(c, b) ==
  LET a == X2(c, <<b[3] + 256 * b[4], b[1] + 256 * b[2]>>)
      T(n, x) == Moved(Table[x], n)
  IN X2(X2(X2(T(7, a[2] % 256), T(6, a[2] \div 256)), X2(T(5, a[1] % 256), T(4, a[1] \div 256))),
        X2(X2(T(3, b[5]), T(2, b[6])), X2(T(1, b[7]), T(0, b[8]))))
(* --- lookup3 --- *)
Add(a, b) == LET l == a[2] + b[2] IN <<(a[1] + b[1] + (l \div 65536)) % 65536, l % 65536>>
Sub(a, b) == LET l == a[2] + 65536 - b[2] IN <<(a[1] + 65535 - b[1] + (l \div 65536)) % 65536, l % 65536>>
Rot(a, k) == LET s == k % 16  x == IF k >= 16 THEN <<a[2], a[1]>> ELSE a IN
  IF s = 0 THEN x ELSE
  <<(x[1] % Q2[16 - s]) * Q2[s] + (x[2] \div Q2[16 - s]), (x[2] % Q2[16 - s]) * Q2[s] + (x[1] \div Q2[16 - s])>>
(* a -= c; a ^= rot(c, k); c += b *)
M(x, y, k) == X2(Sub(x, y), Rot(y, k))
Mix(s) ==
  LET a1 == M(s[1], s[3], 4)   c1 == Add(s[3], s[2])
      b1 == M(s[2], a1, 6)     a2 == Add(a1, c1)
      c2 == M(c1, b1, 8)       b2 == Add(b1, a2)
      a3 == M(a2, c2, 16)      c3 == Add(c2, b2)
      b3 == M(b2, a3, 19)      a4 == Add(a3, c3)
      c4 == M(c3, b3, 4)       b4 == Add(b3, a4)
  IN <<a4, b4, c4>>
F(x, y, k) == Sub(X2(x, y), Rot(y, k))
Final(s) ==
  LET c1 == F(s[3], s[2], 14)
      a1 == F(s[1], c1, 11)
      b1 == F(s[2], a1, 25)
      c2 == F(c1, b1, 16)
      a2 == F(a1, c2, 4)
      b2 == F(b1, a2, 14)
      c3 == F(c2, b2, 24)
  IN <<a2, b2, c3>>
RECURSIVE Words3(_, _)
Words3(s, ws) == \* ws: the words of the key, zero padded
  IF ws = <<>> THEN s
  ELSE IF Len(ws) <= 3 THEN Final(<<Add(s[1], ws[1]), IF Len(ws) > 1 THEN Add(s[2], ws[2]) ELSE s[2], IF Len(ws) > 2 THEN Add(s[3], ws[3]) ELSE s[3]>>)
  ELSE Words3(Mix(<<Add(s[1], ws[1]), Add(s[2], ws[2]), Add(s[3], ws[3])>>), SubSeq(ws, 4, Len(ws)))
Start(len, pc, pb) == LET x == Add(Add(<<57005, 48879>>, <<len \div 65536, len % 65536>>), pc) IN <<x, x, Add(x, pb)>>
At(bs, k) == IF k > Len(bs) THEN 0 ELSE bs[k]
LittleWords(bs) == [k \in 1..((Len(bs) + 3) \div 4) |-> <<At(bs, 4*k) * 256 + At(bs, 4*k - 1), At(bs, 4*k - 2) * 256 + At(bs, 4*k - 3)>>]
BigWords(bs) == [k \in 1..((Len(bs) + 3) \div 4) |-> <<At(bs, 4*k - 3) * 256 + At(bs, 4*k - 2), At(bs, 4*k - 1) * 256 + At(bs, 4*k)>>]
(* <<primary, secondary>> *)
HashOf(ws, len, pc, pb) == LET z == Words3(Start(len, pc, pb), ws) IN <<z[3], z[2]>>
HashLittle2(bs, pc, pb) == HashOf(LittleWords(bs), Len(bs), pc, pb)
HashBig(bs, seed) == HashOf(BigWords(bs), Len(bs), seed, <<0, 0>>)[1]
HashWord2(ws, pc, pb) == HashOf(ws, 4 * Len(ws), pc, pb)
=============================================================================
