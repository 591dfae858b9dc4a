-------------------------------- MODULE Rate --------------------------------
(* The rate limiter (C33).  Time is <<seconds, nanoseconds>>.  A period has  *)
(* whole seconds and nanoseconds; its ticks are the multiples of the period  *)
(* counted from the start of the current second (and, for periods of a       *)
(* second and more, of its whole seconds).  A call returns at the next tick  *)
(* after the previous return, at once if that has passed.                    *)
EXTENDS Integers
CONSTANT Second        \* nanoseconds in a second (smaller in models)
TBefore(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
TNorm(s, n) == <<s + n \div Second, n % Second>>
(* the tick that follows t, for a period of p nanoseconds *)
Tick(t, p) ==
  LET ps == p \div Second
      pn == p % Second
      s == IF ps > 0 THEN t[1] - (t[1] % ps) + ps ELSE t[1]
      n == IF pn > 0 THEN t[2] - (t[2] % pn) ELSE 0
  IN IF n > Second - pn THEN <<s + 1, n - (Second - pn)>> ELSE TNorm(s, n + pn)
(* the period of a rate, whichever way the last nanosecond was rounded *)
Periods(rate) == (Second \div rate - 1)..(Second \div rate + 1)
(* when the rate is re-evaluated *)
Reevaluates(count, freq) == freq # 0 /\ count > freq /\ count % freq = 0
(* at most one percent either way *)
Slower(p) == p + p \div 99 + 2
Faster(p) == p - p \div 101 - 2
(* expected events so far in hundredths, against the events: -1 when the run *)
(* has clearly been too slow (more than a percent), 1 too fast; rates whose  *)
(* products TLC cannot compute are not judged                                *)
Elapsed(from, to) == IF to[2] >= from[2] THEN <<to[1] - from[1], to[2] - from[2]>> ELSE <<to[1] - from[1] - 1, to[2] - from[2] + Second>>
Judged(e, rate) == rate <= 2000 /\ e[1] < 5000 /\ e[1] * rate < 20000000
Due100(e, rate) == 100 * rate * e[1] + (rate * (e[2] \div 1000)) \div 10000
Drift(e, rate, count) ==
  IF ~Judged(e, rate) THEN 0
  ELSE LET d == Due100(e, rate) IN
       IF d > 101 * count + 3 THEN -1
       ELSE IF d < 99 * count - 3 THEN 1 ELSE 0
(* bounds of the period after a re-evaluation, given bounds before it *)
NewBounds(lo, hi, drift) ==
  CASE drift = -1 -> <<Faster(lo), hi - hi \div 101 + 2>>
    [] drift = 1 -> <<lo + lo \div 99 - 2, Slower(hi)>>
    [] OTHER -> <<Faster(lo), Slower(hi)>>
=============================================================================
