------------------------------ MODULE FormatMC ------------------------------
(* The closed-form calendar agrees with counting days one by one, across     *)
(* leap years and centuries.                                                 *)
EXTENDS Format
CONSTANTS FirstYear, LastYear
VARIABLES n, y, m, d
vars == <<n, y, m, d>>
MonthLen(yy, mm) == CASE mm = 2 -> IF IsLeap(yy) THEN 29 ELSE 28 [] mm \in {4, 6, 9, 11} -> 30 [] OTHER -> 31
RECURSIVE DaysBefore(_)
DaysBefore(yy) == IF yy = 1970 THEN 0 ELSE DaysBefore(yy - 1) + (IF IsLeap(yy - 1) THEN 366 ELSE 365)
Init == y = FirstYear /\ m = 1 /\ d = 1 /\ n = DaysBefore(FirstYear)
Tick ==
  /\ y <= LastYear
  /\ n' = n + 1
  /\ IF d < MonthLen(y, m) THEN d' = d + 1 /\ UNCHANGED <<y, m>>
     ELSE d' = 1 /\ IF m < 12 THEN m' = m + 1 /\ UNCHANGED y ELSE m' = 1 /\ y' = y + 1
Spec == Init /\ [][Tick]_vars
Agrees == LET c == Civil(OfNat(4, n)) IN 400 * ToNat(c.era) + c.y = y /\ c.m = m /\ c.d = d
SecOf(w, s) == WAdd(w, OfNat(4, s))
Times86400(k) == LET a == OfNat(4, k) IN    \* k * 86400 = k * 2^7 * 675
  LET RECURSIVE Mul(_, _) Mul(w, t) == IF t = 0 THEN Zeros(4) ELSE LET h == Mul(w, t \div 2) IN
        LET h2 == WAdd(h, h) IN IF t % 2 = 1 THEN WAdd(h2, w) ELSE h2 IN Mul(a, 86400)
ClockAgrees == \A s \in {0, 3661, 86399} :
  LET t == Time(SecOf(Times86400(n), s)) IN t.year = y /\ t.mon = m /\ t.day = d /\ t.h * 3600 + t.mi * 60 + t.s = s
=============================================================================
