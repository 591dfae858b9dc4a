----------------------------- MODULE MergeTrace -----------------------------
(* Conformance of merging (C04, C05) to Merge and of type indexes (C03) to   *)
(* Record.                                                                    *)
EXTENDS Merge, CaseCheck
Ascending(l) == \A k \in 1..(Len(l) - 1) : l[k] < l[k + 1]
Range(l) == {l[k] : k \in 1..Len(l)}
(* more bits than there are types, in blocks that reach past their windows *)
BlockOnes(ix, p) == LET n == ix[p + 2] IN IF \A k \in 1..n : ix[p + 2 + k] = 255 THEN 8 * n ELSE Cardinality(BlockTypes(ix, p))
RECURSIVE AllOnes(_, _)
AllOnes(ix, p) == IF p >= Len(ix) THEN 0 ELSE BlockOnes(ix, p) + AllOnes(ix, p + 2 + ix[p + 2])
TooMany(ix) == Len(ix) > 8192 /\ AllOnes(ix, 0) > 65536
IdxOk(c) ==
  LET o == c.out T == IndexTypes(c.ix) IN
  IF IndexOk(c.ix)
  THEN /\ o.n = Len(o.list) + 1 /\ Ascending(o.list) /\ Range(o.list) = T
       /\ IF c.ix # <<>> THEN Range(o.has) = T /\ Len(o.has) = Cardinality(T)
          ELSE IF c.kind = KRRsetName THEN Len(o.has) = 65536 ELSE Range(o.has) = NameBearing
  ELSE /\ ~BitmapOk(c.ix, 0, 0) => o.n = 0          \* a malformed index lists nothing
       /\ (BitmapOk(c.ix, 0, 0) /\ TooMany(c.ix)) => o.n = 0
COk(c) == IF c.op = "idx" THEN IdxOk(c) ELSE c.out.failed = 0 /\ MergeOk(c.key, c.vals, c.out.val)
CCNext == CCStep(COk(Case))
=============================================================================
