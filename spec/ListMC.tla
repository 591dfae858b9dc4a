------------------------------- MODULE ListMC -------------------------------
(* The links implement the sequences, whatever is done to them. *)
EXTENDS List
CONSTANTS Lists, Elems
VARIABLES q, m
Init == q = [l \in Lists |-> <<>>] /\ m = KEmpty(Lists, Elems)
In == UNION {LElems(q[l]) : l \in Lists}
Out == Elems \ In
Next ==
  \/ \E l \in Lists, x \in Out : q' = [q EXCEPT ![l] = LPrepend(@, x)] /\ m' = KPrepend(m, l, x)
  \/ \E l \in Lists, x \in Out : q' = [q EXCEPT ![l] = LAppend(@, x)] /\ m' = KAppend(m, l, x)
  \/ \E l \in Lists, x \in Out : \E b \in LElems(q[l]) : q' = [q EXCEPT ![l] = LBefore(@, b, x)] /\ m' = KBefore(m, l, b, x)
  \/ \E l \in Lists, x \in Out : \E b \in LElems(q[l]) : q' = [q EXCEPT ![l] = LAfter(@, b, x)] /\ m' = KAfter(m, l, b, x)
  \/ \E l \in Lists : \E x \in LElems(q[l]) : q' = [q EXCEPT ![l] = LUnlink(@, x)] /\ m' = KUnlink(m, l, x)
  \/ \E l, k \in Lists : l # k /\ q' = [q EXCEPT ![l] = @ \o q[k], ![k] = <<>>] /\ m' = KConcat(m, l, k)
Implements == \A l \in Lists : Forward(m, m.h[l]) = q[l] /\ Backward(m, m.t[l]) = LRev(q[l])
Marked == \A x \in Elems : x \in Out <=> m.p[x] = -1 /\ m.n[x] = -1
=============================================================================
