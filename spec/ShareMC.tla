------------------------------- MODULE ShareMC -------------------------------
(* N searches, each with elements of its own, areas apart: every search sees *)
(* a beginning of its own plan, and all of it in the end.  A second state,   *)
(* shared, runs along in which the first two searches use one area: what the *)
(* third delivers is its own even then.                                      *)
EXTENDS Share, TLC
CONSTANTS N, Len0
VARIABLES own, shared
vars == <<own, shared>>
Ids == 1..N
Start == [plan |-> [i \in Ids |-> [k \in 1..Len0 |-> 10 * i + k]], at |-> [i \in Ids |-> 0], busy |-> [i \in Ids |-> FALSE],
          area |-> [i \in Ids |-> 0], got |-> [i \in Ids |-> <<>>]]
One(i) == IF i <= 2 THEN 1 ELSE i
Init == own = Start /\ shared = Start
Next == \E i \in Ids :
          \/ CanFetch(own, i) /\ own' = Fetch(own, i, i) /\ shared' = Fetch(shared, i, One(i))
          \/ CanDeliver(own, i) /\ own' = Deliver(own, i, i) /\ shared' = Deliver(shared, i, One(i))
Spec == Init /\ [][Next]_vars
Alone == \A i \in Ids : AsAlone(own, i)
Complete == (\A i \in Ids : ~CanFetch(own, i) /\ ~CanDeliver(own, i)) => \A i \in Ids : own.got[i] = own.plan[i]
(* as seen by the third search even the other two cannot disturb it *)
Apart == \A i \in Ids : i > 2 => AsAlone(shared, i)
=============================================================================
