------------------------------- MODULE HeapMC -------------------------------
(* Every sequence of operations on heaps of bounded size. *)
EXTENDS Heap
CONSTANTS Keys, MaxSize
VARIABLES a, loose, bag, out
vars == <<a, loose, bag, out>>
None == 0
B0 == [k \in Keys |-> 0]
Init == a = <<>> /\ loose = FALSE /\ bag = B0 /\ out = <<None, {}>>
Room == Len(a) < MaxSize
Plus(k) == [bag EXCEPT ![k] = @ + 1]
Minus(b, k) == [b EXCEPT ![k] = @ - 1]
Held == {k \in Keys : bag[k] > 0}
Do(b, l, g, o) == a' = b /\ loose' = l /\ bag' = g /\ out' = o
Next ==
  \/ Room /\ \E k \in Keys : Do(HAdd(a, k), TRUE, Plus(k), <<None, {}>>)
  \/ Room /\ ~loose /\ \E k \in Keys : Do(HPush(a, k), FALSE, Plus(k), <<None, {}>>)
  \/ Do(HHeapify(a), FALSE, bag, <<None, {}>>)
  \/ ~loose /\ a # <<>> /\ Do(HPop(a), FALSE, Minus(bag, a[1]), <<a[1], Held>>)
  \/ ~loose /\ a # <<>> /\ \E k \in Keys : Do(HReplace(a, k), FALSE, Minus(Plus(k), a[1]), <<a[1], Held>>)
  \/ \E n \in 0..MaxSize : LET b == HClip(a, n) IN Do(b, loose, [k \in Keys |-> HCount(b, k)], <<None, {}>>)
Ordered == loose \/ HOrdered(a)
Same == \A k \in Keys : HCount(a, k) = bag[k]
Least == out[1] # None => out[1] \in out[2] /\ \A k \in out[2] : out[1] <= k
=============================================================================
