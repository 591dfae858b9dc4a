------------------------------- MODULE Words -------------------------------
(* Machine words.  TLC integers are 32-bit, so a w-bit word is a sequence of *)
(* 16-bit limbs, most significant first (64 bits: 4 limbs, 32 bits: 2).      *)
EXTENDS Naturals, Sequences
Pow2 == [k \in 0..30 |-> 2^k]
Zeros(n) == [k \in 1..n |-> 0]
Ones(n) == [k \in 1..n |-> 65535]
(* value of bit b (0 = least significant) of word w *)
Bit(w, b) == (w[Len(w) - (b \div 16)] \div Pow2[b % 16]) % 2
NBits(w) == 16 * Len(w)
(* word of n limbs from a bit function f: 0..16n-1 -> 0..1 *)
OfBits(n, f(_)) ==
  [k \in 1..n |-> LET base == 16 * (n - k) IN
     f(base) + 2*f(base+1) + 4*f(base+2) + 8*f(base+3) + 16*f(base+4) + 32*f(base+5) + 64*f(base+6) + 128*f(base+7)
     + 256*f(base+8) + 512*f(base+9) + 1024*f(base+10) + 2048*f(base+11) + 4096*f(base+12) + 8192*f(base+13) + 16384*f(base+14) + 32768*f(base+15)]
RECURSIVE AddC(_, _, _, _)
AddC(a, b, k, c) == IF k = 0 THEN <<>> ELSE
   LET s == a[k] + b[k] + c IN Append(AddC(a, b, k - 1, s \div 65536), s % 65536)
(* sum modulo 2^(16n) *)
WAdd(a, b) == AddC(a, b, Len(a), 0)
WNot(a) == [k \in 1..Len(a) |-> 65535 - a[k]]
WOne(n) == [k \in 1..n |-> IF k = n THEN 1 ELSE 0]
WSub(a, b) == WAdd(WAdd(a, WNot(b)), WOne(Len(a)))
WLt(a, b) == \E k \in 1..Len(a) : a[k] < b[k] /\ \A j \in 1..(k-1) : a[j] = b[j]
WLe(a, b) == a = b \/ WLt(a, b)
WMin(a, b) == IF WLt(b, a) THEN b ELSE a
WMax(a, b) == IF WLt(a, b) THEN b ELSE a
WIsZero(a) == \A k \in 1..Len(a) : a[k] = 0
(* natural number below 2^31 as a word, and back when it fits *)
OfNat(n, v) == [k \in 1..n |-> IF k = n THEN v % 65536 ELSE IF k = n - 1 THEN v \div 65536 ELSE 0]
FitsNat(w) == /\ \A k \in 1..(Len(w) - 2) : w[k] = 0
              /\ (Len(w) < 2 \/ w[Len(w) - 1] < 32768)
ToNat(w) == IF Len(w) = 1 THEN w[1] ELSE w[Len(w) - 1] * 65536 + w[Len(w)]
(* bytes <-> words *)
BEWord(bs) == [k \in 1..(Len(bs) \div 2) |-> bs[2*k-1] * 256 + bs[2*k]]
BEBytes(w) == [k \in 1..(2*Len(w)) |-> IF k % 2 = 1 THEN w[(k+1) \div 2] \div 256 ELSE w[k \div 2] % 256]
=============================================================================
