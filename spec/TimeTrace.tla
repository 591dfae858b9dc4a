------------------------------ MODULE TimeTrace -----------------------------
EXTENDS Time, CaseCheck
(* a span through a double and back: exact to a nanosecond or two while the  *)
(* double resolves nanoseconds, and to what it resolves above                *)
Tol(t) == LET s == IF FitsNat(t[1]) THEN ToNat(t[1]) ELSE 2147483647 IN
  IF s < 2097152 THEN 2 ELSE IF s < 16777216 THEN 6 ELSE IF s < 268435456 THEN 70 ELSE 500
COk(c) ==
  CASE c.op = "ari" -> /\ c.out.add = TAdd(c.a, c.b) /\ c.out.sub = TSub(c.a, c.b)
                       /\ (c.out.cmp < 0) = (TCmp(c.a, c.b) < 0) /\ (c.out.cmp > 0) = (TCmp(c.a, c.b) > 0)
                       /\ c.out.self = <<TAdd(c.a, c.a), <<Zeros(4), 0>>>>
    [] c.op = "dbl" -> Norm(c.out.back) /\ Near(c.out.back, c.a, Tol(c.a))
    [] c.op = "frac" -> Norm(c.out.t) /\ Near(c.out.t, c.a, 1)
    [] c.op = "slp" -> LET el == TSub(c.out.from, c.out.to) IN el = TAdd(c.a, <<Zeros(4), c.late>>)
    [] c.op = "now" -> Norm(c.out.t) /\ TCmp(c.out.t, c.a) <= 0 /\ Near(c.out.t, c.a, 999)
CCNext == CCStep(COk(Case))
=============================================================================
