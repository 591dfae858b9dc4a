----------------------------- MODULE ListTrace ------------------------------
(* Recorded operations on lists, each with everything one can see afterwards. *)
EXTENDS List, CaseCheck
VARIABLES pos, q
Init == CCInit /\ pos = 1 /\ q = (IF Case.crash = "" THEN [l \in 1..Case.nl |-> <<>>] ELSE <<>>)
E == Case.ev[pos]
Op == E[1]
L == E[2] + 1
A == E[3]
B == E[4]
See == E[5]
After == CASE Op \in {"P", "J"} -> [q EXCEPT ![L] = LPrepend(@, A)]
           [] Op \in {"A", "I", "E"} -> [q EXCEPT ![L] = LAppend(@, A)]
           [] Op = "B" -> [q EXCEPT ![L] = LBefore(@, A, B)]
           [] Op = "F" -> [q EXCEPT ![L] = LAfter(@, A, B)]
           [] Op \in {"U", "T", "D"} -> [q EXCEPT ![L] = LUnlink(@, A)]
           [] Op = "C" -> [q EXCEPT ![L] = @ \o q[A + 1], ![A + 1] = <<>>]
Ok(z) == /\ \A l \in 1..Case.nl :
              /\ See[l][1] = (IF z[l] = <<>> THEN 1 ELSE 0)
              /\ See[l][2] = (IF z[l] = <<>> THEN 0 ELSE z[l][1])
              /\ See[l][3] = (IF z[l] = <<>> THEN 0 ELSE z[l][Len(z[l])])
              /\ See[l][4] = z[l]
              /\ See[l][5] = LRev(z[l])
         /\ \A x \in 1..Len(E[6]) : E[6][x] = (IF \E l \in 1..Case.nl : x \in LElems(z[l]) THEN 1 ELSE 0)
Next ==
  /\ st = "todo" /\ ci' = ci
  /\ IF Case.crash # "" THEN st' = "bad" /\ UNCHANGED <<pos, q>>
     ELSE IF pos > Len(Case.ev) THEN st' = "ok" /\ UNCHANGED <<pos, q>>
     ELSE LET z == TLCEval(After) IN
          IF Ok(z) THEN st' = "todo" /\ pos' = pos + 1 /\ q' = z ELSE st' = "bad" /\ UNCHANGED <<pos, q>>
=============================================================================
