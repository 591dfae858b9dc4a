----------------------------- MODULE VarintMC -----------------------------
EXTENDS Varint
(* all values with at most two bits set, and the all-ones prefixes *)
MCVals == {OfBits(4, LAMBDA b : IF b = i \/ b = j THEN 1 ELSE 0) : i \in 0..63, j \in {0, 6, 13, 27, 31, 34, 63}}
      \cup {OfBits(4, LAMBDA b : IF b < i THEN 1 ELSE 0) : i \in 0..64}
=============================================================================
