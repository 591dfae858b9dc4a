------------------------------- MODULE Bytes -------------------------------
(* Byte strings: sequences over 0..255, in dictionary order. *)
EXTENDS Naturals, Sequences
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a < b THEN b ELSE a
HasPrefix(s, p) == Len(s) >= Len(p) /\ \A k \in 1..Len(p) : s[k] = p[k]
HasSuffix(s, p) == Len(s) >= Len(p) /\ \A k \in 1..Len(p) : s[Len(s) - Len(p) + k] = p[k]
Take(s, n) == SubSeq(s, 1, n)
Drop(s, n) == SubSeq(s, n + 1, Len(s))
(* a < b *)
LexLt(a, b) ==
  LET n == Min2(Len(a), Len(b))
      D == {k \in 1..n : a[k] # b[k]}
  IN IF D = {} THEN Len(a) < Len(b)
     ELSE LET d == CHOOSE k \in D : \A j \in D : k <= j IN a[d] < b[d]
LexLe(a, b) == ~LexLt(b, a)
RECURSIVE ConcatAll(_)
ConcatAll(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o ConcatAll(Tail(ss))
Lower(b) == IF b >= 65 /\ b <= 90 THEN b + 32 ELSE b
LowerAll(s) == [k \in 1..Len(s) |-> Lower(s[k])]
Rev(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
=============================================================================
