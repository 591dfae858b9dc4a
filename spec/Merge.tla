-------------------------------- MODULE Merge --------------------------------
(* Merging the values that several files (or several merge rounds) hold for  *)
(* one key.  A value is understood through its meaning; merging is defined   *)
(* on meanings, for any number of values at once.                             *)
EXTENDS Record, FiniteSets
RECURSIVE MinOf(_), MaxOf(_), SumOf(_)
MinOf(s) == IF Len(s) = 1 THEN s[1] ELSE WMin(Head(s), MinOf(Tail(s)))
MaxOf(s) == IF Len(s) = 1 THEN s[1] ELSE WMax(Head(s), MaxOf(Tail(s)))
SumOf(s) == IF Len(s) = 1 THEN s[1] ELSE WAdd(Head(s), SumOf(Tail(s)))
Map(s, Op(_)) == [k \in 1..Len(s) |-> Op(s[k])]
AnyEmpty(vals) == \E k \in 1..Len(vals) : vals[k] = <<>>
VersionOf(v) == LET x == VarAt(v, 0, 5, 2) IN IF x.n # Len(v) THEN <<>> ELSE x.v

(* ---- what the merge of a sequence of values must mean ---- *)
TripletsOk(vals) == \A k \in 1..Len(vals) : Triplet(vals[k]).ok
MergedTriplet(vals) ==
  LET t == Map(vals, Triplet) IN
  [ok |-> TRUE, first |-> MinOf([k \in 1..Len(t) |-> t[k].first]),
   last |-> MaxOf([k \in 1..Len(t) |-> t[k].last]),
   count |-> SumOf([k \in 1..Len(t) |-> t[k].count])]
MergedRange(vals) ==
  LET t == Map(vals, Pair) IN
  [ok |-> TRUE, first |-> MinOf([k \in 1..Len(t) |-> t[k].first]), last |-> MaxOf([k \in 1..Len(t) |-> t[k].last])]
MergedTypes(vals) == UNION {IndexTypes(vals[k]) : k \in 1..Len(vals)}
(* does `out` mean the merge of `vals` (at least two) under `key`? *)
MergeOk(key, vals, out) ==
  LET k == key[1] IN
  CASE k \in {KRRset, KRdata} -> Triplet(out) = MergedTriplet(vals)
    [] k \in {KRRsetName, KRdataName} ->
         IF AnyEmpty(vals) THEN out = <<>>          \* no index: any type may exist
         ELSE out # <<>> /\ IndexOk(out) /\ IndexTypes(out) = MergedTypes(vals)
    [] k = KTimeRange /\ Len(key) = 1 ->
         IF AnyEmpty(vals) THEN out = <<>> ELSE Pair(out) = MergedRange(vals)
    [] k = KVersion /\ Len(key) = 2 ->
         IF AnyEmpty(vals) \/ key[2] \notin {KRRset, KRRsetName, KRdata, KRdataName} THEN out = <<>>
         ELSE VersionOf(out) = MinOf(Map(vals, VersionOf))
    [] OTHER -> out = <<>>
(* one value in stored form for a meaning (used by the model below) *)
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o SetSeq(S \ {m})
BlockBytes(S, w) ==     \* S: offsets 0..255
  LET top == CHOOSE x \in S : \A y \in S : y <= x
      n == top \div 8 + 1
      bit(k, j) == IF 8 * (k - 1) + j \in S THEN Pow2[7 - j] ELSE 0
  IN <<w, n>> \o [k \in 1..n |-> bit(k,0)+bit(k,1)+bit(k,2)+bit(k,3)+bit(k,4)+bit(k,5)+bit(k,6)+bit(k,7)]
Bitmap(T) ==
  LET W == SetSeq({t \div 256 : t \in T}) IN
  ConcatAll([k \in 1..Len(W) |-> BlockBytes({t % 256 : t \in {u \in T : u \div 256 = W[k]}}, W[k])])
MergeTwo(key, a, b) ==
  LET k == key[1] IN
  CASE k \in {KRRset, KRdata} -> LET m == MergedTriplet(<<a, b>>) IN PackTriplet(m.first, m.last, m.count)
    [] k \in {KRRsetName, KRdataName} -> IF AnyEmpty(<<a, b>>) THEN <<>> ELSE IF a = b THEN a ELSE Bitmap(MergedTypes(<<a, b>>))
    [] k = KTimeRange -> IF AnyEmpty(<<a, b>>) THEN <<>> ELSE LET m == MergedRange(<<a, b>>) IN PackPair(m.first, m.last)
    [] k = KVersion -> IF AnyEmpty(<<a, b>>) \/ key[2] > 3 THEN <<>> ELSE V!Encode(MinOf(Map(<<a, b>>, VersionOf)))
    [] OTHER -> <<>>
=============================================================================
