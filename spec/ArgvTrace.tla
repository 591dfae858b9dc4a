----------------------------- MODULE ArgvTrace ------------------------------
(* Recorded parses: c.t, c.cfg, c.as; c.defs the variables before, c.out the *)
(* result, the variables afterwards and what the three "was used" calls say. *)
EXTENDS Argv, CaseCheck
COk(c) == LET r == Parse(c.t, c.cfg, c.as) IN
  r.vague \/ (TableOk(c.t) /\ Odd(c.t)) \/
  IF ~r.ok THEN c.out.ret = -1
  ELSE /\ c.out.ret = 0
       /\ \A e \in 1..Len(c.t) : ~Link(c.t[e]) =>
            /\ c.out.vals[e] = IF c.t[e].arr = 1 THEN r.val[e] ELSE <<Held(c.defs[e], r.val[e])>>
            /\ \A k \in 1..Len(c.out.used[e]) : c.out.used[e][k] = (IF r.used[e] THEN 1 ELSE 0)
CCNext == CCStep(COk(Case))
=============================================================================
