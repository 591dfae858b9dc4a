-------------------------------- MODULE Time --------------------------------
(* Times with a nanosecond part (C48): <<seconds as four 16-bit limbs in     *)
(* two's complement, nanoseconds>>, and sleeping through interruptions.      *)
EXTENDS Words, Integers
CONSTANT Second
Norm(t) == t[2] >= 0 /\ t[2] < Second
W1(n) == OfNat(n, 1)
TAdd(a, b) == LET n == a[2] + b[2]  s == WAdd(a[1], b[1]) IN
   IF n >= Second THEN <<WAdd(s, W1(Len(s))), n - Second>> ELSE <<s, n>>
(* b - a *)
TSub(a, b) == LET n == b[2] - a[2]  s == WSub(b[1], a[1]) IN
   IF n < 0 THEN <<WSub(s, W1(Len(s))), n + Second>> ELSE <<s, n>>
Neg(w) == w[1] >= 32768
SLt(a, b) == IF Neg(a) # Neg(b) THEN Neg(a) ELSE WLt(a, b)
TCmp(a, b) == CASE SLt(a[1], b[1]) -> -1 [] SLt(b[1], a[1]) -> 1
                [] a[1] = b[1] /\ a[2] < b[2] -> -1 [] a[1] = b[1] /\ a[2] > b[2] -> 1
                [] OTHER -> 0
(* at least / at most so far apart, for a close pair *)
Near(a, b, tol) == LET d == IF TCmp(a, b) > 0 THEN TSub(b, a) ELSE TSub(a, b) IN WIsZero(d[1]) /\ d[2] <= tol
=============================================================================
