------------------------------ MODULE Varint ------------------------------
(* Base-128 variable-length integers (property C38). *)
EXTENDS Words, Bytes, FiniteSets
TopBit(w) == IF WIsZero(w) THEN 0 ELSE
   CHOOSE b \in 0..(NBits(w)-1) : Bit(w, b) = 1 /\ \A c \in (b+1)..(NBits(w)-1) : Bit(w, c) = 0
(* number of base-128 digits *)
VLen(w) == TopBit(w) \div 7 + 1
BitOr0(w, b) == IF b < NBits(w) THEN Bit(w, b) ELSE 0
Digit(w, k) == BitOr0(w,7*k) + 2*BitOr0(w,7*k+1) + 4*BitOr0(w,7*k+2) + 8*BitOr0(w,7*k+3)
             + 16*BitOr0(w,7*k+4) + 32*BitOr0(w,7*k+5) + 64*BitOr0(w,7*k+6)
Encode(w) == [k \in 1..VLen(w) |-> Digit(w, k-1) + (IF k < VLen(w) THEN 128 ELSE 0)]
(* length of the encoding at the front of bs, looking at no more than max bytes; 0 = none *)
PackedLen(bs, max) ==
  LET T == {k \in 1..Min2(max, Len(bs)) : bs[k] < 128}
  IN IF T = {} THEN 0 ELSE CHOOSE k \in T : \A j \in T : k <= j
(* value of the first len bytes, as a word of n limbs (excess high bits are dropped) *)
Value(bs, len, n) == OfBits(n, LAMBDA b : IF b \div 7 < len THEN (bs[b \div 7 + 1] \div Pow2[b % 7]) % 2 ELSE 0)

---------------------------------------------------------------------------
(* Operational model: a decoder consuming one byte per step.  Checked        *)
(* exhaustively below to agree with the definitions above.                   *)
CONSTANTS Vals, Max
VARIABLES v, inb, pos, acc, st
vars == <<v, inb, pos, acc, st>>
Junk == {<<>>, <<255>>}
Init == /\ v \in Vals
        /\ \E j \in Junk : inb = Encode(v) \o j
        /\ pos = 0 /\ acc = Zeros(Len(v)) /\ st = "run"
Step == /\ st = "run" /\ pos < Max /\ pos < Len(inb)
        /\ LET b == inb[pos+1] IN
             /\ acc' = OfBits(Len(v), LAMBDA k : IF k \div 7 = pos THEN (b \div Pow2[k % 7]) % 2 ELSE Bit(acc, k))
             /\ pos' = pos + 1
             /\ st' = IF b < 128 THEN "done" ELSE IF pos + 1 = Max THEN "bad" ELSE "run"
        /\ UNCHANGED <<v, inb>>
Next == Step
Spec == Init /\ [][Next]_vars
RoundTrip == st = "done" => acc = v /\ pos = VLen(v) /\ pos = PackedLen(inb, Max) /\ Value(inb, pos, Len(v)) = v
NeverBad == st # "bad"
ReadsOnlyItsBytes == pos <= VLen(v)
Minimal == Len(Encode(v)) = 1 \/ Encode(v)[Len(Encode(v))] # 0
=============================================================================
