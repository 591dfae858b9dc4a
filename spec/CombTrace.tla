----------------------------- MODULE CombTrace -----------------------------
(* Recorded next/seek histories of the combinators, replayed step by step:   *)
(* one transition per call.                                                  *)
EXTENDS Comb, CaseCheck
VARIABLES pos, s
Init == CCInit /\ pos = 1 /\ s = <<>>
Ev == Case.ev[pos]
StepOf(z) == IF Ev.e = "s" THEN DoSeek(z, Ev.k) ELSE DoNext(z)
\* the counters tell what was done: rejected elements passed, merged elements,
\* and the seeks that the sources really saw
CountersOk(z) ==
  LET c == Ev.c IN
  /\ c.filtered = (IF Case.tree.n = "J" THEN -1 ELSE z.filtered)
  /\ c.merged = (IF Case.tree.n = "J" THEN z.merged ELSE -1)
  /\ c.seek = (IF Case.tree.n = "F" THEN z.seeks ELSE Ev.saw)
  /\ c.files = (IF Case.tree.n = "R" THEN Len(Case.tree.rm) ELSE -1)
Next ==
  /\ st = "todo" /\ ci' = ci
  /\ IF Case.crash # "" THEN st' = "bad" /\ UNCHANGED <<pos, s>>
     ELSE IF pos > Len(Case.ev) THEN st' = "ok" /\ UNCHANGED <<pos, s>>
     ELSE LET z == StepOf(IF pos = 1 THEN Open(Case.tree, Case.op) ELSE s) IN
          /\ s' = z /\ pos' = pos + 1
          /\ st' = IF (Ev.e = "n" => Ev.out = z.res) /\ CountersOk(z) THEN "todo" ELSE "bad"
=============================================================================
