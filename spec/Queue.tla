------------------------------- MODULE Queue -------------------------------
(* A bounded first-in first-out queue shared by one producer and one         *)
(* consumer.  An insertion looks at the free space at some moment of the     *)
(* call and, if there is some, makes its element available at a later        *)
(* moment of the call; a removal looks at the number of elements and, if     *)
(* there is one, takes the oldest at a later moment.                         *)
EXTENDS Integers, Sequences
Idle == [s |-> "idle", x |-> 0, n |-> 0]
QNew == [q |-> <<>>, p |-> Idle, c |-> Idle]
(* the steps nobody sees *)
PLook(z, cap) == [z EXCEPT !.p = [s |-> "looked", x |-> z.p.x, n |-> cap - Len(z.q)]]
PPut(z) == IF z.p.n = 0 THEN [z EXCEPT !.p = [s |-> "done", x |-> 0, n |-> 0]]
           ELSE [z EXCEPT !.q = Append(z.q, z.p.x), !.p = [s |-> "done", x |-> 1, n |-> z.p.n - 1]]
CLook(z) == [z EXCEPT !.c = [s |-> "looked", x |-> 0, n |-> Len(z.q)]]
CTake(z) == IF z.c.n = 0 THEN [z EXCEPT !.c = [s |-> "done", x |-> -1, n |-> 0]]
            ELSE [z EXCEPT !.q = Tail(z.q), !.c = [s |-> "done", x |-> Head(z.q), n |-> z.c.n - 1]]
Hidden(z, cap) == (IF z.p.s = "called" THEN {PLook(z, cap)} ELSE IF z.p.s = "looked" THEN {PPut(z)} ELSE {})
                  \cup (IF z.c.s = "called" THEN {CLook(z)} ELSE IF z.c.s = "looked" THEN {CTake(z)} ELSE {})
(* the calls and returns *)
PCall(z, v) == [z EXCEPT !.p = [s |-> "called", x |-> v, n |-> 0]]
CCall(z) == [z EXCEPT !.c = [s |-> "called", x |-> 0, n |-> 0]]
PRet(z) == [z EXCEPT !.p = Idle]
CRet(z) == [z EXCEPT !.c = Idle]
PowerOfTwo(n) == \E k \in 1..30 : n = 2^k
=============================================================================
