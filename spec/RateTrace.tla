----------------------------- MODULE RateTrace ------------------------------
(* Recorded runs of the rate limiter on a simulated clock, one transition    *)
(* per call.  The period is known only within bounds until a sleep shows it: *)
(* P holds what it can be, or, after a re-evaluation, B its bounds.          *)
EXTENDS Rate, CaseCheck
VARIABLES pos, last, first, P, B
vars == <<pos, last, first, P, B>>
Init == CCInit /\ pos = 1 /\ last = <<0, 0>> /\ first = <<0, 0>> /\ P = (IF Case.crash = "" THEN Periods(Case.rate) ELSE {}) /\ B = <<0, 0>>
Ev == Case.ev[pos]
Now == Ev[1]
Sl == Ev[2]
Ret == Ev[3]
From == IF pos = 1 THEN Now ELSE last
(* the first call's tick counts from the call itself; later ones from the previous return *)
Slept == Len(Sl) > 0
Target == <<Sl[1][1], Sl[1][2]>>
Known == P # {}
(* the periods within bounds that have Target for a tick after From (below a second) *)
FromTick ==
  LET x == IF Target[1] = From[1] THEN Target[2] ELSE Target[2] + Second
      m1 == x \div B[2]
      m2 == x \div B[1] + 1
  IN {q \in {x \div m : m \in {k \in m1..m2 : k > 0 /\ x % k = 0}} : B[1] <= q /\ q <= B[2] /\ Tick(From, q) = Target}
Wide == B[2] >= Second
Now2 == IF Known THEN {q \in P : IF Slept THEN Tick(From, q) = Target ELSE ~TBefore(Now, Tick(From, q))}
        ELSE IF Slept /\ ~Wide THEN FromTick ELSE {}
Lo(S) == CHOOSE x \in S : \A y \in S : x <= y
Hi(S) == CHOOSE x \in S : \A y \in S : x >= y
(* sleeps end at the tick, and only one that fell short is followed by another *)
SleepsOk == /\ \A i \in 1..Len(Sl) : <<Sl[i][1], Sl[i][2]>> = Target
            /\ \A i \in 1..Len(Sl) - 1 : TBefore(<<Sl[i][3], Sl[i][4]>>, Target)
            /\ Slept => TBefore(Now, Target) /\ ~TBefore(Ret, Target)
            /\ ~Slept => Ret = Now
PeriodOk == IF Known \/ (Slept /\ ~Wide) THEN Now2 # {}
            ELSE Slept => Target[1] - From[1] <= B[2] \div Second + 1
Q == IF Known \/ (Slept /\ ~Wide) THEN Now2 ELSE {}
QB == IF Q = {} THEN B ELSE <<Lo(Q), Hi(Q)>>
Next ==
  /\ st = "todo" /\ ci' = ci
  /\ IF Case.crash # "" THEN st' = "bad" /\ UNCHANGED vars
     ELSE IF pos > Len(Case.ev) THEN st' = "ok" /\ UNCHANGED vars
     ELSE IF ~(SleepsOk /\ PeriodOk) THEN st' = "bad" /\ UNCHANGED vars
     ELSE /\ st' = "todo" /\ pos' = pos + 1 /\ last' = Ret /\ first' = IF pos = 1 THEN Now ELSE first
          /\ IF Reevaluates(pos, Case.freq)
             THEN LET nb == TLCEval(NewBounds(QB[1], QB[2], Drift(Elapsed(first, Now), Case.rate, pos))) IN
                  IF nb[2] - nb[1] <= 12 THEN P' = nb[1]..nb[2] /\ B' = nb ELSE P' = {} /\ B' = nb
             ELSE P' = TLCEval(Q) /\ B' = TLCEval(QB)
=============================================================================
