----------------------------- MODULE HeapTrace ------------------------------
(* Recorded histories of the heap.  Elements are numbered and Case.key gives *)
(* their keys; which of several least elements is taken, and where elements  *)
(* stand in the array, is left open.                                         *)
EXTENDS Heap, CaseCheck
VARIABLES pos, held, loose, peeked, seen, keys
vars == <<pos, held, loose, peeked, seen, keys>>
Init == CCInit /\ pos = 1 /\ held = {} /\ loose = FALSE /\ peeked = 0 /\ seen = <<>> /\ keys = Case.key
E == Case.ev[pos]
Op == E[1]
Arg == E[2]
Res == E[3]
Snap == E[5]
K(i) == IF Case.mode = 1 THEN 0 - keys[i] ELSE keys[i]
Elems(s) == {s[i] : i \in 1..Len(s)}
Exact(S) == Len(Snap) = Cardinality(S) /\ Elems(Snap) = S
LeastOf(i) == IF held = {} THEN i = 0 ELSE i \in held /\ \A j \in held : K(i) <= K(j)
Taken == LeastOf(Res) /\ (peeked # 0 => Res = peeked)
After == CASE Op \in {"a", "p"} -> held \cup {Arg}
           [] Op = "o" -> held \ {Res}
           [] Op = "r" -> IF held = {} THEN {} ELSE (held \ {Res}) \cup {Arg}
           [] Op = "x" -> {}
           [] Op = "c" -> Elems(SubSeq(seen, 1, IF Arg < Len(seen) THEN Arg ELSE Len(seen)))
           [] OTHER -> held
Ok == /\ E[4] = Len(Snap) /\ E[6] = 0 /\ Exact(After)
      /\ CASE Op \in {"o", "r", "m"} -> Taken      \* m: the least element gets another key and is put back in its own place
           [] Op = "k" -> LeastOf(Res)
           [] OTHER -> TRUE
Next ==
  /\ st = "todo" /\ ci' = ci
  /\ IF Case.crash # "" THEN st' = "bad" /\ UNCHANGED vars
     ELSE IF pos > Len(Case.ev) THEN st' = "ok" /\ UNCHANGED vars
     ELSE IF ~Ok THEN st' = "bad" /\ UNCHANGED vars
     ELSE /\ st' = "todo" /\ pos' = pos + 1 /\ held' = After /\ seen' = Snap
          /\ peeked' = (IF Op = "k" THEN Res ELSE 0)
          /\ loose' = FALSE
          /\ keys' = (IF Op = "m" /\ Res # 0 THEN [keys EXCEPT ![Res] = Arg] ELSE keys)
=============================================================================
