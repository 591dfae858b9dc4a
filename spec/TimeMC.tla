------------------------------- MODULE TimeMC -------------------------------
(* Time arithmetic is integer arithmetic; a sleep that is interrupted and   *)
(* resumed with what remains lasts exactly as long as one that is not.       *)
EXTENDS Time
CONSTANTS Span, MaxIntr
VARIABLES a, b, now, left, intr
vars == <<a, b, now, left, intr>>
(* seconds small enough to be integers; one limb, two's complement *)
Secs == {0, 1, 2, 3, 65535, 65534}
T == {<<<<s>>, n>> : s \in Secs, n \in 0..(Second - 1)}
S(w) == IF w[1] >= 32768 THEN w[1] - 65536 ELSE w[1]
I(t) == S(t[1]) * Second + t[2]
Init == a \in T /\ b \in T /\ now = 0 /\ left = I(<<<<Span>>, 1>>) /\ intr = 0
Next == /\ left > 0 /\ UNCHANGED <<a, b>>
        /\ \/ now' = now + left /\ left' = 0 /\ UNCHANGED intr
           \/ /\ intr < MaxIntr /\ \E k \in 0..(left - 1) : now' = now + k /\ left' = left - k
              /\ intr' = intr + 1
Arith == /\ I(TAdd(a, b)) = I(a) + I(b) /\ Norm(TAdd(a, b))
         /\ I(TSub(a, b)) = I(b) - I(a) /\ Norm(TSub(a, b))
         /\ (TCmp(a, b) < 0) = (I(a) < I(b)) /\ (TCmp(a, b) = 0) = (a = b)
         /\ TSub(a, TAdd(a, b)) = b
Whole == left = 0 => now = Span * Second + 1
Progress == now + left = Span * Second + 1
=============================================================================
