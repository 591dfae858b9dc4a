------------------------------ MODULE CodecMC -------------------------------
(* Streaming in any division equals the text of the whole; the text forms   *)
(* determine their bytes; address arithmetic is arithmetic.                  *)
EXTENDS Codec
CONSTANTS Vals, Max, Foreign
VARIABLES fed, es, eo, ds, do, left
vars == <<fed, es, eo, ds, do, left>>
Chunks(n) == UNION {[1..k -> Vals] : k \in 0..n}
(* the encoder is fed in chunks; what it says is fed to the decoder in chunks of its own, foreign characters thrown in *)
Init == fed = <<>> /\ es = E64Init /\ eo = <<>> /\ ds = D64Init /\ do = <<>> /\ left = <<>>
Feed == \E c \in Chunks(Max - Len(fed)) :
          /\ c # <<>>
          /\ LET z == E64Feed(es, c) IN es' = z[1] /\ eo' = eo \o z[2] /\ left' = left \o z[2]
          /\ fed' = fed \o c /\ UNCHANGED <<ds, do>>
Drain == \E k \in 1..Len(left) : \E f \in Foreign \cup {0} :
          LET c == SubSeq(left, 1, k)
              z == D64Feed(ds, IF f = 0 THEN c ELSE <<f>> \o c) IN
          /\ ds' = z[1] /\ do' = do \o z[2] /\ left' = SubSeq(left, k + 1, Len(left))
          /\ UNCHANGED <<fed, es, eo>>
Next == Feed \/ Drain
Whole == eo \o E64End(es) = Enc64(fed)
Back == LET z == D64Feed(ds, left \o E64End(es)) IN do \o z[2] = fed
RoundTrips ==
  /\ Dec32(Enc32(fed)) = fed /\ Dec64(Enc64(fed)) = fed
  /\ (fed # <<>> => HexOk(Hex(fed, TRUE)) /\ Unhex(Hex(fed, FALSE)) = fed /\ Unhex(Hex(fed, TRUE)) = fed)
  /\ Len(Enc32(fed)) = (8 * Len(fed) + 4) \div 5
  /\ \A k \in 1..Len(Enc32(fed)) : V32(Enc32(fed)[k]) >= 0
RECURSIVE AsNat(_)
AsNat(a) == IF a = <<>> THEN 0 ELSE AsNat(SubSeq(a, 1, Len(a) - 1)) * 256 + a[Len(a)]
Pow(n) == IF n = 0 THEN 1 ELSE IF n = 1 THEN 256 ELSE 65536
Addresses == \A p \in 0..(8 * Len(fed)) :
  Len(fed) \in {1, 2} =>
    LET a == AsNat(fed)  m == P2[8 * Len(fed) - p] IN
    /\ AsNat(AddrLower(fed, p)) = (a \div m) * m
    /\ AsNat(AddrUpper(fed, p)) = (a \div m) * m + m - 1
    /\ AsNat(AddrNext(fed)) = (a + 1) % Pow(Len(fed))
Numbers == Len(fed) = 2 =>
   LET w == <<0, 0, 0, AsNat(fed)>> IN
   /\ ReadNum(DecOf(w)) = [ok |-> TRUE, v |-> w]
   /\ ReadNum(<<32, 43, 48, 120>> \o Hex(fed, FALSE)) = [ok |-> TRUE, v |-> w]
ASSUME /\ DecOf(<<65535, 65535, 65535, 65535>>) = <<49,56,52,52,54,55,52,52,48,55,51,55,48,57,53,53,49,54,49,53>>
       /\ ReadNum(<<49,56,52,52,54,55,52,52,48,55,51,55,48,57,53,53,49,54,49,53>>) = [ok |-> TRUE, v |-> <<65535, 65535, 65535, 65535>>]
       /\ ~ReadNum(<<49,56,52,52,54,55,52,52,48,55,51,55,48,57,53,53,49,54,49,54>>).ok
       /\ Enc32(<<102,111,111,98>>) = <<67,80,78,77,85,79,71>> /\ Enc64(<<102,111,111,98>>) = <<90,109,57,118,89,103,61,61>>
       /\ Replace(<<97,97,97,98>>, <<97,97>>, <<99>>) = <<99,97,98>>
=============================================================================
