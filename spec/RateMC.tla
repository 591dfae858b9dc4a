------------------------------- MODULE RateMC -------------------------------
(* Calls, interrupted sleeps and work in between, on a small clock.          *)
EXTENDS Rate, Sequences, FiniteSets
CONSTANTS MaxPeriod, MaxTime
VARIABLES now, p, tick, asleep, count, begun, done
vars == <<now, p, tick, asleep, count, begun, done>>
Abs(t) == t[1] * Second + t[2]
Init == /\ now \in {<<0, n>> : n \in 0..Second - 1} /\ p \in 1..MaxPeriod /\ tick = <<0, 0>> /\ asleep = FALSE /\ count = 0 /\ begun = <<0, 0>> /\ done = <<>>
Plus(t, d) == TNorm(t[1], t[2] + d)
Work == /\ ~asleep /\ \E d \in 1..Second : now' = Plus(now, d) /\ Abs(now') <= MaxTime
        /\ UNCHANGED <<p, tick, asleep, count, begun, done>>
Enter == /\ ~asleep /\ count' = count + 1
         /\ LET T == IF count = 0 THEN Tick(now, p) ELSE tick IN
            IF TBefore(now, T) THEN asleep' = TRUE /\ tick' = T /\ UNCHANGED done
            ELSE asleep' = FALSE /\ tick' = Tick(now, p) /\ done' = Append(done, <<Abs(now), Abs(T), Abs(now)>>)
         /\ begun' = now /\ UNCHANGED <<now, p>>
(* a signal ends the sleep early; the caller goes back to sleep *)
Signal == /\ asleep /\ \E d \in 1..Abs(tick) - Abs(now) - 1 : now' = Plus(now, d)
          /\ UNCHANGED <<p, tick, asleep, count, begun, done>>
Wake == /\ asleep /\ now' = tick /\ asleep' = FALSE /\ tick' = Tick(tick, p) /\ done' = Append(done, <<Abs(begun), Abs(tick), Abs(tick)>>)
        /\ UNCHANGED <<p, count, begun>>
Next == (Abs(now) < MaxTime /\ Len(done) < 6 /\ (Work \/ Enter)) \/ Signal \/ Wake
(* a tick lies ahead, by no more than a period and what its rounding adds *)
TickAhead == \A n \in 0..Second - 1 : TBefore(<<1, n>>, Tick(<<1, n>>, p))
TickNear == p < Second => Abs(Tick(now, p)) - Abs(now) <= p
(* returns at its tick if that is ahead and at once if it is not *)
OnTick == \A i \in 1..Len(done) : done[i][3] = IF done[i][1] < done[i][2] THEN done[i][2] ELSE done[i][1]
(* no two returns within one interval between ticks *)
OnePerTick == p < Second => \A i \in 1..Len(done) - 1 : done[i + 1][3] > done[i][3] \/ done[i][3] = done[i][1]
RateBound == p < Second => \A i, j \in 1..Len(done) : i < j =>
   j - i <= (done[j][3] - done[i][3]) \div p + (done[j][3] \div Second - done[i][3] \div Second) + 1
=============================================================================
