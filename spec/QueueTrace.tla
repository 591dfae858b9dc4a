----------------------------- MODULE QueueTrace -----------------------------
(* Recorded histories of the queue (C30): one transition per call or return; *)
(* the specification keeps every state its hidden steps could have reached.  *)
EXTENDS Queue, CaseCheck
VARIABLES pos, S
Init == CCInit /\ pos = 1 /\ S = {QNew}
Ev == Case.h[pos]
RECURSIVE Closure(_)
Closure(X) == LET N == UNION {Hidden(z, Case.n - 1) : z \in X} IN IF N \subseteq X THEN X ELSE Closure(X \cup N)
NoAsk == 99999
Step(X) ==
  CASE Ev[1] = "pc" -> {PCall(z, Ev[2]) : z \in X}
    [] Ev[1] = "cc" -> {CCall(z) : z \in X}
    [] Ev[1] = "pr" -> {PRet(z) : z \in {y \in Closure(X) : y.p.s = "done" /\ y.p.x = Ev[2] /\ Ev[3] \in {y.p.n, NoAsk}}}
    [] Ev[1] = "cr" -> {CRet(z) : z \in {y \in Closure(X) : y.c.s = "done" /\ y.c.x = Ev[2] /\ Ev[3] \in {y.c.n, NoAsk}}}
InitOk == /\ (Case.made = 1) <=> PowerOfTwo(Case.n)
          /\ Case.gone = 1
Next ==
  /\ st = "todo" /\ ci' = ci
  /\ IF Case.crash # "" THEN st' = "bad" /\ UNCHANGED <<pos, S>>
     ELSE IF Case.op = "init" THEN st' = (IF InitOk THEN "ok" ELSE "bad") /\ UNCHANGED <<pos, S>>
     ELSE IF pos > Len(Case.h) THEN st' = "ok" /\ UNCHANGED <<pos, S>>
     ELSE LET X == Step(S) IN S' = X /\ pos' = pos + 1 /\ st' = IF X = {} THEN "bad" ELSE "todo"
=============================================================================
