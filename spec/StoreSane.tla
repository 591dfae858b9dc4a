------------------------------ MODULE StoreSane ------------------------------
(* What is assumed of the stores used in conformance: checked, not trusted.   *)
EXTENDS Query, CaseCheck
SaneRec(r) == LET e == LoadRec(r) IN
  /\ e.ok
  /\ HasTimes(e) => \A k \in 1..Len(e.per) : e.per[k].t.ok /\ WLe(e.per[k].t.first, e.per[k].t.last) /\ ~WIsZero(e.per[k].t.last)
CCNext == CCStep(KeysAscend(Case.recs) /\ \A k \in 1..Len(Case.recs) : SaneRec(Case.recs[k]))
=============================================================================
