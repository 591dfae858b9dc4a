------------------------------- MODULE TreeMC -------------------------------
(* Every tree of elements 1..K that insertions and removals reach. *)
EXTENDS Tree
CONSTANT K
VARIABLES t, S
Init == t = TEmpty(K) /\ S = {}
Next == \/ \E k \in 1..K \ S : t' = RBInsert(t, k) /\ S' = S \cup {k}
        \/ \E k \in S : t' = RBRemove(t, k) /\ S' = S \ {k}
Shape == RedBlack(t, S)
Order == InOrder(t, t.root) = TSort(S)
BlackRoot == t.root # 0 => t.c[t.root] = 0
=============================================================================
