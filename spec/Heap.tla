-------------------------------- MODULE Heap --------------------------------
(* A binary heap (C34) in an array a (a sequence of keys here), as the       *)
(* sifting algorithms arrange it.  `Loose' operations leave it unordered     *)
(* until the next rebuild.                                                   *)
EXTENDS Naturals, Sequences, FiniteSets
HMin(S) == CHOOSE x \in S : \A y \in S : x <= y
HSwap(a, i, j) == [a EXCEPT ![i] = a[j], ![j] = a[i]]
(* move the element at i towards the root while it is smaller than its parent *)
RECURSIVE HUp(_, _)
HUp(a, i) == IF i = 1 \/ a[i] >= a[i \div 2] THEN a ELSE HUp(HSwap(a, i, i \div 2), i \div 2)
(* move it towards the leaves while a child is smaller *)
RECURSIVE HDown(_, _)
HDown(a, i) ==
  LET kids == {c \in {2 * i, 2 * i + 1} : c <= Len(a)} IN
  IF kids = {} THEN a
  ELSE LET m == CHOOSE c \in kids : \A d \in kids : a[c] <= a[d] IN
       IF a[m] < a[i] THEN HDown(HSwap(a, i, m), m) ELSE a
RECURSIVE HBuild(_, _)
HBuild(a, i) == IF i = 0 THEN a ELSE HBuild(HDown(a, i), i - 1)
HAdd(a, k) == Append(a, k)
HPush(a, k) == HUp(Append(a, k), Len(a) + 1)
HHeapify(a) == HBuild(a, Len(a) \div 2)
HPop(a) == IF a = <<>> THEN a ELSE LET b == SubSeq(a, 1, Len(a) - 1) IN IF b = <<>> THEN b ELSE HDown([b EXCEPT ![1] = a[Len(a)]], 1)
HReplace(a, k) == IF a = <<>> THEN a ELSE HDown([a EXCEPT ![1] = k], 1)
HClip(a, n) == IF n < Len(a) THEN SubSeq(a, 1, n) ELSE a
HOrdered(a) == \A i \in 2..Len(a) : a[i \div 2] <= a[i]
HKeys(a) == {a[i] : i \in 1..Len(a)}
HCount(a, k) == Cardinality({i \in 1..Len(a) : a[i] = k})
=============================================================================
